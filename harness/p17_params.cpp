// P17: merging of map parameters, all operation sequences up to a depth.
#include "mc.h"
#include "map_parameters.h"
#include <fitsio.h>
#include <marc/Log.h>
#include <optional>
#include <list>
using MP = MaRC::map_parameters;

static char const * const SN[] = {"author", "bunit", "instrument", "object", "observer", "origin", "reference", "telescope"};
static char const * const DN[] = {"bscale", "bzero", "equinox", "datamin", "datamax"};
enum { NS = 8, ND = 5 };

struct Model {
    int plane = 0;
    std::string s[NS]; bool slock[NS] = {};
    std::optional<double> d[ND]; bool dlock[ND] = {};
    std::optional<std::int64_t> blank; bool blocked = false;
    int bitpix = 0;
    std::list<std::string> com[2]; bool clock[2] = {};
    bool user() const { return plane == 0; }
    void merge(Model & p)
    {
        if (p.bitpix && (bitpix == 0 || !user()))
            if (bitpix == 0 || (p.bitpix > 0 && p.bitpix > bitpix) || (p.bitpix < 0 && p.bitpix < bitpix)) bitpix = p.bitpix;
        for (int i = 0; i < NS; ++i) if (!slock[i] && s[i].empty()) s[i] = p.s[i];
        for (int i = 0; i < 3; ++i)      // the data range of a source is not merged
            if (!dlock[i] && !d[i] && p.d[i] && !std::isnan(*p.d[i])) d[i] = p.d[i];
        if (!blocked && !blank) blank = p.blank;
        for (int c = 0; c < 2; ++c) if (!clock[c]) { com[c].insert(com[c].end(), p.com[c].begin(), p.com[c].end()); }
    }
};
static void set_s(MP & m, int i, std::string v)
{
    switch (i) { case 0: m.author(v); break; case 1: m.bunit(v); break; case 2: m.instrument(v); break; case 3: m.object(v); break;
    case 4: m.observer(v); break; case 5: m.origin(v); break; case 6: m.reference(v); break; default: m.telescope(v); }
}
static std::string get_s(MP const & m, int i)
{
    switch (i) { case 0: return m.author(); case 1: return m.bunit(); case 2: return m.instrument(); case 3: return m.object();
    case 4: return m.observer(); case 5: return m.origin(); case 6: return m.reference(); default: return m.telescope(); }
}
static void set_d(MP & m, int i, std::optional<double> v)
{ switch (i) { case 0: m.bscale(v); break; case 1: m.bzero(v); break; case 2: m.equinox(v); break; case 3: m.datamin(v); break; default: m.datamax(v); } }
static std::optional<double> get_d(MP const & m, int i)
{ switch (i) { case 0: return m.bscale(); case 1: return m.bzero(); case 2: return m.equinox(); case 3: return m.datamin(); default: return m.datamax(); } }

struct Both { MP p; Model m; explicit Both(int plane) : p(plane) { m.plane = plane; } };

// parameter classes: 0..7 strings, 8..12 numbers, 13 blank, 14 bitpix, 15 comment, 16 xcomment
enum { NP = 17 };
static std::string pname(int k) { return k < NS ? SN[k] : k < NS + ND ? DN[k - NS] : k == 13 ? "blank" : k == 14 ? "bitpix" : k == 15 ? "comment" : "xcomment"; }
static int const BP[] = {8, 16, 32, 64, -32, -64};
static void set(Both & b, int k, int v)
{
    bool const user = b.m.user();
    if (k < NS) { std::string t = v == 2 ? "" : v ? (k % 2 ? " beta" : "beta") : (k % 3 ? "alpha" : " alpha "); set_s(b.p, k, t); b.m.s[k] = t; b.m.slock[k] |= user; }
    else if (k < NS + ND) { double t = v == 2 ? NAN : v ? -2.5 : k % 2 ? 7 : 0; set_d(b.p, k - NS, t); b.m.d[k - NS] = t; b.m.dlock[k - NS] |= user; }
    else if (k == 13) { std::int64_t t = v ? -99 : 0; b.p.blank(t); b.m.blank = t; b.m.blocked |= user; }
    else if (k == 14) { int t = BP[v % 6]; b.p.bitpix(t); b.m.bitpix = t; }
    else { std::string t = v ? "note b" : "note a"; if (k == 15) b.p.push_comment(t); else b.p.push_xcomment(t); b.m.com[k - 15].push_back(t); b.m.clock[k - 15] |= user; }
}
static bool same(mc::Explorer & x, Both const & b)
{
    auto bad = [&](std::string n, std::string got, std::string want) { x.check(false, "parameter", n + " is " + got + ", expected " + want); return false; };
    for (int i = 0; i < NS; ++i) if (get_s(b.p, i) != b.m.s[i]) return bad(SN[i], "'" + get_s(b.p, i) + "'", "'" + b.m.s[i] + "'");
    for (int i = 0; i < ND; ++i) {
        auto g = get_d(b.p, i);
        if (g.has_value() != b.m.d[i].has_value() || (g && !(*g == *b.m.d[i] || (std::isnan(*g) && std::isnan(*b.m.d[i])))))
            return bad(DN[i], g ? mc::str(*g) : "unset", b.m.d[i] ? mc::str(*b.m.d[i]) : "unset");
    }
    if (b.p.blank() != b.m.blank) return bad("blank", b.p.blank() ? mc::str(*b.p.blank()) : "unset", b.m.blank ? mc::str(*b.m.blank) : "unset");
    int bp = 0;
    try { bp = b.p.bitpix(); } catch (std::runtime_error const &) {}
    if (bp != b.m.bitpix) return bad("bitpix", mc::str(bp), mc::str(b.m.bitpix));
    if (b.p.comments() != b.m.com[0]) return bad("comments", mc::str(b.p.comments().size()), mc::str(b.m.com[0].size()));
    if (b.p.xcomments() != b.m.com[1]) return bad("xcomments", mc::str(b.p.xcomments().size()), mc::str(b.m.com[1].size()));
    x.check(true, "parameter");
    return true;
}
static std::uint64_t hash(Model const & m)
{
    std::uint64_t h = m.plane + m.bitpix * 7;
    for (auto & s : m.s) h = mc::mix(h, std::hash<std::string>()(s));
    for (auto & d : m.d) h = mc::mix(h, d ? mc::bits(*d) : 1);
    h = mc::mix(h, m.blank ? *m.blank : 0);
    for (auto & c : m.com) for (auto & t : c) h = mc::mix(h, std::hash<std::string>()(t));
    return h;
}

// one operation on the target: set a parameter, or merge a source with some parameters set
static void step(mc::Explorer & x, Both & t, std::vector<int> const & params, int depth)
{
    std::size_t const np = params.size();
    std::size_t const op = x.choose_l("op", 2 * np + 1 + 3 * np + 2, [&](std::size_t i) {
        if (i < 2 * np) return "set-" + pname(params[i / 2]) + "-" + mc::str(i % 2);
        i -= 2 * np;
        if (i == 0) return std::string("merge-nothing");
        --i;
        if (i < 3 * np) return "merge-" + pname(params[i / 3]) + "-" + mc::str(i % 3);
        return "merge-all-" + mc::str(i - 3 * np);
    });
    if (op < 2 * np) { set(t, params[op / 2], (int) (op % 2) + (params[op / 2] == 14 ? depth * 2 : 0)); return; }
    std::size_t i = op - 2 * np;
    Both src(depth + 3);
    if (i > 0) {
        --i;
        if (i < 3 * np) set(src, params[i / 3], (int) (i % 3) + (params[i / 3] == 14 ? depth : 0));
        else for (int k = 0; k < NP; ++k) set(src, k, (int) (i - 3 * np));
    }
    bool const ok = t.p.merge(src.p);
    x.check(ok, "merge", "merge failed");
    t.m.merge(src.m);
}

static void sequences(mc::Explorer & x)
{
    Both t((int) x.choose("plane", 2));
    // all parameters, short histories; or a few parameters, long histories
    std::vector<int> params;
    int depth;
    std::size_t const focus = x.choose("focus", 6);
    if (focus == 0) { for (int k = 0; k < NP; ++k) params.push_back(k); depth = 2; }
    else {
        static std::vector<std::vector<int>> const F = {{0, 8}, {14}, {13, 15}, {1, 9, 16}, {3, 11, 14}};
        params = F[focus - 1]; depth = params.size() == 1 ? 5 : params.size() == 2 ? 4 : 3;
        if (x.thorough()) ++depth;
    }
    for (int i = 0; i < depth; ++i) {
        step(x, t, params, i);
        x.state(hash(t.m));
        if (!same(x, t)) return;
    }
}
static void bitpixes(mc::Explorer & x)
{
    // every pair and triple of data types
    Both t((int) x.choose("plane", 2));
    for (int i = 0; i < 3; ++i) {
        std::size_t const k = x.choose("type", 8);
        if (k < 6) { Both s(i + 1); set(s, 14, (int) k); x.check(t.p.merge(s.p), "merge", "merge failed"); t.m.merge(s.m); }
        else if (k == 6) set(t, 14, i);
        else {
            bool threw = false;
            static int const BAD[] = {0, 1, -8, 24, -16, 128};
            try { t.p.bitpix(BAD[i * 2]); } catch (std::invalid_argument const &) { threw = true; }
            x.check(threw, "illegal", "unsupported data type accepted");
        }
        x.state(hash(t.m));
        if (!same(x, t)) return;
    }
    bool threw = false;
    try { MP bad(-1 - (int) x.choose("neg", 3)); } catch (std::invalid_argument const &) { threw = true; }
    x.check(threw, "plane", "negative plane number accepted");
}
static void body(mc::Explorer & x) { if (x.choose("part", 2)) bitpixes(x); else sequences(x); }
int main(int c, char ** v) { freopen("/dev/null", "w", stderr); mc::Explorer x; return x.main(c, v, 4, body); }
