// P24: progress notifications.
#include "bodies.h"
#include "ProgressConsole.h"
#include <marc/Observer.h>
#include <iostream>

struct Ev { int who; bool reset; std::size_t size, count; };
struct Rec : MaRC::Progress::Observer
{
    std::vector<Ev> & log; int who;
    Rec(std::vector<Ev> & l, int w) : log(l), who(w) {}
    void notify(std::size_t s, std::size_t c) override { log.push_back({who, false, s, c}); }
    void reset() override { log.push_back({who, true, 0, 0}); }
};
struct RawFactory : MaRC::MapFactory
{
    std::size_t visits;
    char const * projection_name() const override { return "raw"; }
private:
    void plot_map(std::size_t, std::size_t, plot_type const & plot) const override
    { for (std::size_t o = 0; o < visits; ++o) plot(0, 0, o); }
    void plot_grid(std::size_t, std::size_t, double, double, grid_type &) const override {}
};

static void observers(mc::Explorer & x, bool large)
{
    std::size_t const nobs = x.choose("observers", 4);
    int const proj = x.choose("proj", 5);
    std::size_t s, l;
    if (large) {
        static std::vector<std::pair<std::size_t, std::size_t>> const BIG = {{257, 3}, {300, 260}, {70001, 1}};
        auto const sh = BIG[x.choose_l("shape", proj == 2 ? 2 : 3, [](std::size_t i) { return mc::str(BIG[i].first) + "x" + mc::str(BIG[i].second); })];
        s = sh.first; l = sh.second;
    } else { s = 1 + x.choose("samples-1", x.thorough() ? 8 : 5); l = 1 + x.choose("lines-1", x.thorough() ? 8 : 5); }
    if (proj == 1 && l > 8 * s) throw mc::Prune();
    std::size_t const planes = large ? 2 : 1 + x.choose("planes-1", 3);
    bool const found = x.flip("data");
    Body b = make_body(true, 100, 90);
    std::unique_ptr<MaRC::MapFactory> m;
    std::size_t const n = s * l;
    std::size_t visits = 0;
    if (proj == 4) {
        auto r = std::make_unique<RawFactory>();
        r->visits = large ? n : x.choose("visits", n + 1);
        m = std::move(r);
    } else m = make_projection(proj, b);
    std::vector<Ev> log;
    MaRC::plot_info<double> info(s, l);
    for (std::size_t i = 0; i < nobs; ++i) info.notifier().subscribe(std::make_unique<Rec>(log, i));
    for (std::size_t p = 0; p < planes; ++p) {
        log.clear();
        std::size_t reads = 0;
        FnSource src([&](double, double, double & d) { ++reads; d = 1; return found; });
        m->make_map<double>(src, MaRC::extrema<double>(), info);
        visits = reads;
        for (std::size_t o = 0; o < nobs; ++o) {
            std::vector<Ev> mine;
            for (auto const & e : log) if (e.who == (int) o) mine.push_back(e);
            // visits increments, then one completion notification, then one reset
            bool ok = mine.size() == visits + 2;
            for (std::size_t i = 0; ok && i < visits; ++i)
                ok = !mine[i].reset && mine[i].size == n && mine[i].count == i + 1;
            ok = ok && !mine[visits].reset && mine[visits].count == n && mine[visits].size == n && mine[visits + 1].reset;
            x.checkf(ok, "notifications", [&] {
                std::string t = "observer " + mc::str(o) + " of " + mc::str(nobs) + ", " + mc::str(visits) + " visits, plane " + mc::str(p) + ":";
                for (auto const & e : mine) t += e.reset ? " reset" : " " + mc::str(e.count) + "/" + mc::str(e.size);
                return t; });
            x.steps(mine.size());
        }
        x.state(mc::mix(mc::mix(n, visits), mc::mix(nobs, p)));
    }
}

// The console: captured by redirecting stdout to a file.
static void console(mc::Explorer & x, bool large)
{
    static std::vector<std::size_t> const BIG = {255, 256, 257, 1000, 9999, 65535, 65536, 65537, 1000003, 43000000};
    std::size_t const n = large ? BIG[x.choose_l("size", BIG.size(), [](std::size_t i) { return mc::str(BIG[i]); })] : 1 + x.choose("size-1", x.thorough() ? 450 : 230);
    bool const huge = n > 100000000 / 3;
    std::size_t const planes = huge ? 1 : 1 + x.choose("planes-1", 2);
    std::size_t const missing = huge ? 0 : x.choose("unvisited", 3);    // pixels never visited
    if (missing > n) throw mc::Prune();
    std::fflush(stdout);
    int const save = ::dup(1);
    char name[] = "/tmp/marcconsXXXXXX";
    int const fd = ::mkstemp(name);
    ::dup2(fd, 1);
    {
        MaRC::Progress::Notifier nt;
        nt.subscribe(std::make_unique<MaRC::Progress::Console>());
        for (std::size_t p = 0; p < planes; ++p) {
            for (std::size_t i = 0; i + missing < n; ++i) nt.notify_plotted(n);
            nt.notify_done(n);
        }
        std::fflush(stdout);
        std::cout.flush();
    }
    ::dup2(save, 1); ::close(save);
    ::lseek(fd, 0, SEEK_SET);
    std::string out;
    char buf[4096];
    for (ssize_t r; (r = ::read(fd, buf, sizeof buf)) > 0;) out.append(buf, r);
    ::close(fd); ::unlink(name);
    // One line per plane; the percentages on it increase strictly and end in 100%.
    std::size_t lines = 0; bool ok = true; std::size_t shown = 0;
    std::istringstream is(out);
    for (std::string ln; std::getline(is, ln); ++lines) {
        int last = -1;
        for (std::size_t i = 0; i < ln.size();) {
            if (!std::isdigit((unsigned char) ln[i])) { ++i; continue; }
            std::size_t j = i; while (j < ln.size() && std::isdigit((unsigned char) ln[j])) ++j;
            int const v = std::stoi(ln.substr(i, j - i));
            ok = ok && v > last && v <= 100;
            last = v; i = j; ++shown;
        }
        ok = ok && last == 100 && ln.size() >= 4 && ln.substr(ln.size() - 4) == "100%";
    }
    ok = ok && lines == planes;
    x.checkf(ok, "console", [&] { return "shown: " + out; });
    x.steps(shown);
    x.state(mc::mix(n * 2 + planes, out.size()));
}
static void body(mc::Explorer & x) { bool const c = x.flip("console"), l = x.flip("large"); if (c) console(x, l); else observers(x, l); }
int main(int c, char ** v) { mc::Explorer x; return x.main(c, v, 3, body, false); /* standard output is captured */ }
