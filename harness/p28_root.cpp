// P28: root finding.
#include "bodies.h"
#include "ref.h"
#include <marc/root_find.h>
#include <marc/Mathematics.h>

struct F { char const * name; std::function<double(double)> f; double lo, hi; };
static std::vector<F> const & fns()
{
    static std::vector<F> const v = {
        {"2x+1", [](double x) { return 2 * x + 1; }, -50, 50},
        {"-3x", [](double x) { return -3 * x; }, -8, 9},
        {"x^3", [](double x) { return x * x * x; }, -2, 3},
        {"x^3+x", [](double x) { return x * x * x + x; }, -10, 11},
        {"exp", [](double x) { return std::exp(x); }, -5, 5},
        {"exp(-x)", [](double x) { return std::exp(-x); }, -3, 6},
        {"atan", [](double x) { return std::atan(x); }, -20, 30},
        {"tan", [](double x) { return std::tan(x); }, -1.5, 1.5},
        {"sin", [](double x) { return std::sin(x); }, -PI / 2, PI / 2},
        {"cos", [](double x) { return std::cos(x); }, 0, PI},
        {"log", [](double x) { return std::log(x); }, 1e-3, 1e3},
        {"sqrt", [](double x) { return std::sqrt(x); }, 0, 100},
        {"tanh(20x)", [](double x) { return std::tanh(20 * x); }, -1, 1},
        {"x^2 right", [](double x) { return x * x; }, 0, 40},
        {"1/x", [](double x) { return 1 / x; }, 0.01, 10},
        {"mercator.3", [](double p) { double e = .3, t = e * std::sin(p); return std::log(std::tan(PI / 4 + p / 2) * std::pow((1 - t) / (1 + t), e / 2)); }, -PI / 2 + 1e-9, PI / 2 - 1e-9},
        {"mercator.9", [](double p) { double e = .9, t = e * std::sin(p); return std::log(std::tan(PI / 4 + p / 2) * std::pow((1 - t) / (1 + t), e / 2)); }, -PI / 2 + 1e-9, PI / 2 - 1e-9},
        {"stereo.3", [](double p) { double e = .3, t = e * std::sin(p); return 2000 * std::tan(PI / 4 - p / 2) * std::pow((1 + t) / (1 - t), e / 2); }, -PI / 2 + 1e-9, PI / 2},
        {"stereo.92", [](double p) { double e = .92, t = e * std::sin(p); return 6e4 * std::tan(PI / 4 - p / 2) * std::pow((1 + t) / (1 - t), e / 2); }, -PI / 2 + 1e-9, PI / 2},
    };
    return v;
}

// f monotone on [lo,hi]: is there an x in tolerance with f(x)=y ?
static bool is_root(F const & f, double lo, double hi, double x, double y, double xt)
{
    if (!(x >= std::min(lo, hi) - 1e-12 && x <= std::max(lo, hi) + 1e-12)) return false;
    if (mc::close(f.f(x), y, 1e-10)) return true;
    // the target is attained within a tiny neighbourhood of x
    double const d = 1e-8 * std::max(1.0, std::fabs(xt));
    return std::fabs(x - xt) <= d;
}

static void bracket(mc::Explorer & x)
{
    auto const & f = fns()[x.choose_l("f", fns().size(), [](std::size_t i) { return std::string(fns()[i].name); })];
    std::size_t const n = x.thorough() ? 4000 : 400;
    std::size_t const shape = x.choose("bracket", 4);
    std::size_t const t = x.choose("target", n + 1);
    double lo = f.lo, hi = f.hi;
    double const xt = lo + (hi - lo) * t / n;
    double const y = f.f(xt);
    if (shape == 1) { lo = (lo + xt) / 2; hi = (hi + xt) / 2; }           // narrower
    if (shape == 2) std::swap(lo, hi);                                    // bounds exchanged
    if (shape == 3) { lo = xt; hi = f.hi; if (t == n) throw mc::Prune(); }  // root at the bound
    double r; 
    try { r = MaRC::root_find(y, lo, hi, f.f); }
    catch (std::exception const & e) { x.check(false, "failure", std::string("bracketed root not found: ") + e.what() + " target x=" + mc::str(xt)); return; }
    x.checkf(is_root(f, lo, hi, r, y, xt), "root", [&] { return "returned " + mc::str(r) + " f=" + mc::str(f.f(r)) + ", target " + mc::str(y) + " at " + mc::str(xt); });
    x.state(mc::mix(mc::bits(r), mc::bits(y)));
    // unsuitable brackets are reported
    if (shape == 0) {
        double const fl = f.f(f.lo), fh = f.f(f.hi);
        double const beyond = t % 2 ? std::max(fl, fh) + 1 + t : std::min(fl, fh) - 1 - t;
        bool threw = false;
        try { MaRC::root_find(beyond, f.lo, f.hi, f.f); } catch (std::invalid_argument const &) { threw = true; }
        x.check(threw, "bracket-refusal", "a bracket that does not contain the target was accepted");
    }
}

// search from an initial guess: a root or a failure
static void guess(mc::Explorer & x)
{
    auto const & f = fns()[x.choose_l("f", fns().size(), [](std::size_t i) { return std::string(fns()[i].name); })];
    std::size_t const n = x.thorough() ? 200 : 40;
    std::size_t const t = 1 + x.choose("target-1", n - 1);
    std::size_t const s = x.choose("guess", 17);
    double const xt = f.lo + (f.hi - f.lo) * t / n, y = f.f(xt);
    double const x0 = xt + ((int) s - 8) * (f.hi - f.lo) / 16;
    double r = NAN; bool threw = false;
    try { r = MaRC::root_find(y, x0, f.f); } catch (std::runtime_error const &) { threw = true; }
    if (!threw) x.checkf(mc::close(f.f(r), y, 1e-6) || std::fabs(r - xt) < 1e-6 * std::max(1., std::fabs(xt)), "guess-root", [&] { return "from " + mc::str(x0) + " returned " + mc::str(r) + " f=" + mc::str(f.f(r)) + ", target " + mc::str(y) + " at " + mc::str(xt); });
    x.state(mc::mix(mc::bits(threw ? 0.5 : r), mc::bits(y)));
}
static void helpers(mc::Explorer & x)
{
    static std::vector<double> const A = {0, 1, -1, 1e-300, -1e-300, 0.1, 0.3, 1e10, -1e10, 1e300, -1e300, 123.456, 5e-324, PI};
    double const a = A[x.choose_l("a", A.size(), [](std::size_t i) { return mc::str(A[i]); })];
    int const k = (int) x.choose("ulps+8", 17) - 8;
    int const tol = 1 + x.choose("tol-1", 8);
    double b = a;
    for (int i = 0; i < std::abs(k); ++i) b = std::nextafter(b, k > 0 ? INFINITY : -INFINITY);
    bool const e1 = MaRC::almost_equal(a, b, tol), e2 = MaRC::almost_equal(b, a, tol);
    x.check(e1 == e2, "symmetry", "almost_equal is not symmetric");
    if (k == 0) x.check(e1, "reflexive", "a value is not almost equal to itself");
    if (std::abs(k) == 1 && tol >= 2 && std::fabs(a) > 1e-290 && std::fabs(a) < 1e290) x.check(e1, "adjacent", "adjacent values not almost equal");
    // values clearly apart are never almost equal
    if (std::fabs(a) > 1e-290 && std::fabs(a) < 1e290)
        x.check(!MaRC::almost_equal(a, a * (1 + 64 * tol * std::numeric_limits<double>::epsilon()), tol)
                && !MaRC::almost_equal(a, -a, tol), "apart", "clearly different values are almost equal");
    double const eps = std::numeric_limits<double>::epsilon();
    x.check(MaRC::almost_zero(a, tol) == MaRC::almost_zero(-a, tol), "zero-symmetry", "almost_zero is not symmetric");
    x.check(MaRC::almost_zero(eps * tol * 0.5, tol) && !MaRC::almost_zero(eps * tol * 2, tol) && MaRC::almost_zero(0., tol), "zero", "almost_zero is wrong");
    x.check(MaRC::signum(a) == (a > 0 ? 1 : a < 0 ? -1 : 0) && MaRC::sgn(a) == (a >= 0 ? 1 : -1), "sign", "sign helpers wrong");
    x.state(mc::mix(mc::bits(a), mc::mix(k + 100, tol)));
}

static void quadratic(mc::Explorer & x)
{
    static std::vector<double> const R = {-1e6, -3, -1, -0.5, 0, 0.25, 1, 7, 2e5};
    static std::vector<double> const A = {1, -1, 0.5, -20, 1e4};
    static std::vector<int> const U = {0, -45, 60, -90}, V = {0, -60, 50};      // units of the roots and of the coefficients: powers of two
    double const r1 = R[x.choose_l("r1", R.size(), [](std::size_t i) { return mc::str(R[i]); })];
    double const r2 = R[x.choose_l("r2", R.size(), [](std::size_t i) { return mc::str(R[i]); })];
    double const a = A[x.choose_l("a", A.size(), [](std::size_t i) { return mc::str(A[i]); })];
    int const u = U[x.choose_l("unit", U.size(), [](std::size_t i) { return mc::str(U[i]); })], v = V[x.choose_l("factor", V.size(), [](std::size_t i) { return mc::str(V[i]); })];
    double const b = -a * (r1 + r2), c = a * r1 * r2;
    std::pair<double, double> q;
    bool const ok = MaRC::quadratic_roots(std::ldexp(a, v), std::ldexp(b, u + v), std::ldexp(c, 2 * u + v), q);
    q.first = std::ldexp(q.first, -u), q.second = std::ldexp(q.second, -u);
    x.check(ok, "quadratic-none", "real roots not found");
    double const lo = std::min(q.first, q.second), hi = std::max(q.first, q.second);
    x.checkf(!std::isnan(q.first) && !std::isnan(q.second) && mc::close(lo, std::min(r1, r2), 1e-6) && mc::close(hi, std::max(r1, r2), 1e-6), "quadratic", [&] {
        return "roots " + mc::str(q.first) + "," + mc::str(q.second) + " expected " + mc::str(r1) + "," + mc::str(r2); });
    std::pair<double, double> z;
    x.check(!MaRC::quadratic_roots(std::ldexp(a, v), std::ldexp(b, u + v), std::ldexp(b * b / (4 * a) + a, 2 * u + v), z), "quadratic-complex", "complex roots reported as real");
    x.state(mc::mix(mc::bits(lo), mc::bits(hi)));
}
// the equations of the projections at the rows of maps, between the poles themselves, where they end
static void rows(mc::Explorer & x)
{
    static std::vector<double> const RATIO = {1, 0.99, 0.9351, 0.9, 0.6, 0.3, 0.05};
    double const r = RATIO[x.choose_l("pol/eq", RATIO.size(), [](std::size_t i) { return mc::str(RATIO[i]); })];
    double const e = std::sqrt(1 - r * r);
    bool const merc = x.flip("mercator");
    static std::vector<int> const SZ = {2400, 1000, 777, 192, 360, 3600, 2048};
    int const S = SZ[x.choose_l("samples", x.thorough() ? SZ.size() : 4, [](std::size_t i) { return mc::str(SZ[i]); })];
    int const L = x.flip("square") ? S : S * 5 / 6 + 1;
    F const f = merc ? F{"mercator", [e](double p) { double t = e * std::sin(p); return std::log(std::tan(PI / 4 + p / 2) * std::pow((1 - t) / (1 + t), e / 2)); }, -PI / 2, PI / 2}
                     : F{"stereo", [e](double p) { double t = e * std::sin(p); return 1000 * std::tan(PI / 4 - p / 2) * std::pow((1 + t) / (1 - t), e / 2); }, -PI / 2, PI / 2};
    std::uint64_t h = 0;
    for (int k = 0; k < L; ++k) {
        double const y = merc ? (k + 0.5 - L / 2.0) * 2 * PI / S : (k + 0.5) * 3000 / L;
        double root;
        try { root = MaRC::root_find(y, -PI / 2, PI / 2, f.f); }
        catch (std::exception const & ex) { x.check(false, "failure", "row " + mc::str(k) + " of " + mc::str(S) + "x" + mc::str(L) + ": bracketed root not found: " + ex.what()); return; }
        x.checkf(mc::close(f.f(root), y, 1e-10), "root", [&] { return "row " + mc::str(k) + ": returned " + mc::str(root) + " f=" + mc::str(f.f(root)) + ", target " + mc::str(y); });
        h = mc::mix(h, mc::bits(root));
    }
    x.steps(L);
    x.state(h);
}
static void body(mc::Explorer & x)
{
    switch (x.choose("part", 5)) { case 4: rows(x); break; case 0: bracket(x); break; case 1: helpers(x); break; case 2: guess(x); break; default: quadratic(x); }
}
int main(int c, char ** v) { mc::Explorer x; return x.main(c, v, 3, body); }
