// Stateless bounded-exhaustive explorer.
//
// A harness body is a function of a mc::Explorer.  Every call of choose()/pick()
// is a branching point; the explorer re-executes the body for every sequence of
// choices (depth first, no sampling) on the real MaRC code, and the body compares
// what the code did with a reference model.  A failing execution is identified by
// its choice path, which is also its replay.
#ifndef VERIF_MC_H
#define VERIF_MC_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <limits>
#include <algorithm>
#include <type_traits>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <ucontext.h>
#include <exception>
#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/common_interface_defs.h>
#endif

namespace mc {

struct Prune {};

// Two executions taking turns.  Each runs on a stack of its own within the one
// thread; a turn ends wherever the harness compares something (or calls yield()).
class Turns
{
    static constexpr std::size_t SIZE = 8 << 20;
    struct Side { ucontext_t ctx; char * stack = nullptr; std::function<void()> f; bool done = true; void * fake = nullptr; };
    Side side_[2];
    ucontext_t home_;
    void * fake_ = nullptr, * main_bottom_ = nullptr; std::size_t main_size_ = 0;
    int now_ = -1;
    long budget_ = 0;
public:
    // Turns left to an execution tried alone (0: any number).
    static std::uint64_t & limit() { static std::uint64_t n = 0; return n; }
private:
    static Turns *& active() { static Turns * t = nullptr; return t; }
    static void enter()
    {
        Turns & t = *active();
        t.arrived(nullptr);
        Side & s = t.side_[t.now_];
        s.f();
        s.done = true;
        t.go(-1, true);
    }
    void arrived(void * fake)
    {
        (void) fake;
#ifdef __SANITIZE_ADDRESS__
        void const * b; std::size_t n;
        __sanitizer_finish_switch_fiber(fake, &b, &n);
        if (!main_bottom_) { main_bottom_ = const_cast<void *>(b); main_size_ = n; }
#endif
    }
    void go(int to, bool dying = false)
    {
        ucontext_t * const from_c = now_ < 0 ? &home_ : &side_[now_].ctx;
        ucontext_t * const to_c = to < 0 ? &home_ : &side_[to].ctx;
        void ** const keep = now_ < 0 ? &fake_ : &side_[now_].fake;
        (void) keep; (void) dying;
        now_ = to;
#ifdef __SANITIZE_ADDRESS__
        void * const bottom = to < 0 ? main_bottom_ : side_[to].stack;
        std::size_t const size = to < 0 ? main_size_ : SIZE;
        __sanitizer_start_switch_fiber(dying ? nullptr : keep, bottom, size);
#endif
        swapcontext(from_c, to_c);
        arrived(*keep);
    }
public:
    // Run both, starting with the first, until both are done.
    void run(std::function<void()> a, std::function<void()> b)
    {
        active() = this; budget_ = 20000; main_bottom_ = nullptr;
        std::function<void()> fs[2] = {std::move(a), std::move(b)};
        for (int i = 0; i < 2; ++i) {
            Side & s = side_[i];
            if (!s.stack) s.stack = static_cast<char *>(::mmap(nullptr, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
            s.f = fs[i]; s.done = false;
            getcontext(&s.ctx);
            s.ctx.uc_stack.ss_sp = s.stack; s.ctx.uc_stack.ss_size = SIZE; s.ctx.uc_link = nullptr;
            makecontext(&s.ctx, &Turns::enter, 0);
        }
        int next = 0;
        while (!side_[0].done || !side_[1].done) {
            if (side_[next].done) next = 1 - next;
            go(next);
            next = 1 - next;
        }
        active() = nullptr;
    }
    // End the turn of whoever is running.
    static void yield()
    {
        if (limit() && !--limit()) throw Prune();
        Turns * const t = active();
        if (!t || t->now_ < 0 || t->side_[1 - t->now_].done || t->budget_ <= 0 || std::current_exception()) return;
        --t->budget_;
        t->go(-1);
    }
};
inline void yield() { Turns::yield(); }

inline std::string esc(std::string const & s)
{
    std::string r;
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if ((unsigned char) c < 32) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}

template <typename T> std::string str(T const & v)
{
    std::ostringstream o;
    o.precision(17);
    if constexpr (std::is_same_v<T, std::uint8_t> || std::is_same_v<T, std::int8_t>)
        o << (int) v;
    else
        o << v;
    return o.str();
}

inline std::uint64_t mix(std::uint64_t h, std::uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h ^= h >> 31; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 27;
    return h;
}
inline std::uint64_t bits(double d) { std::uint64_t u; std::memcpy(&u, &d, 8); return u; }

// Shared with the driver through a file so that a crash or hang can be located.
struct Heartbeat { std::uint64_t execs; std::uint32_t len; std::uint32_t path[200]; char label[4096]; };

class Explorer
{
    struct Node { std::size_t idx, n; std::string label; };
public:
    std::string tier = "quick";
    std::uint64_t executions = 0, transitions = 0, steps_ = 0, checks_ = 0;

    bool thorough() const { return tier == "thorough"; }

    std::size_t choose(char const * name, std::size_t n)
    {
        return choose_l(name, n, [](std::size_t i) { return str(i); });
    }

    template <typename F>
    std::size_t choose_l(char const * name, std::size_t n, F label)
    {
        if (n == 0) { std::fprintf(stderr, "choose %s: empty\n", name); std::_Exit(3); }
        if (plan_) {
            std::size_t const r = plan_(pos_, name, n);
            if (pos_ >= stack_.size()) stack_.push_back({r, n, std::string(name) + "=" + label(r)});
            names_.push_back(name);
            if (parent_ && parent_->hb_ && pos_ < 200) { parent_->hb_->path[pos_] = (std::uint32_t) r; parent_->hb_->len = (std::uint32_t) pos_ + 1; }
            ++pos_; ++transitions;
            return r;
        }
        if (pos_ < stack_.size()) {
            auto & nd = stack_[pos_];
            if (nd.n == 0) nd.n = n;
            if (nd.n != n) {
                std::fprintf(stderr, "nondeterministic harness at %s (%zu vs %zu)\n", name, nd.n, n);
                std::_Exit(3);
            }
            if (nd.label.empty()) nd.label = std::string(name) + "=" + label(nd.idx);
        } else {
            stack_.push_back({0, n, std::string(name) + "=" + label(0)});
            ++transitions;
        }
        std::size_t const r = stack_[pos_].idx;
        if (hb_ && pos_ < 200) { hb_->path[pos_] = r; hb_->len = pos_ + 1; }
        ++pos_;
        if (!replay_ && pos_ == shard_depth_) {
            // prefix number of this node
            std::uint64_t h = 1469598103934665603ULL;
            for (std::size_t i = 0; i < pos_; ++i) h = mix(h, stack_[i].idx);
            if (h % nshards_ != shard_) throw Prune();
        }
        return r;
    }

    template <typename T>
    T const & pick(char const * name, std::vector<T> const & v)
    {
        return v[choose_l(name, v.size(), [&](std::size_t i) { return str(v[i]); })];
    }

    bool flip(char const * name) { return choose(name, 2) == 1; }

    // A distinct observed (semantic) state of the system under check.
    void state(std::uint64_t h) { states_.insert(h); }
    // Transitions of the implementation checked beyond the choice edges.
    void steps(std::uint64_t n) { steps_ += n; }

    std::string labels() const
    {
        std::string r;
        for (std::size_t i = 0; i < pos_ && i < stack_.size(); ++i) {
            if (i) r += ' ';
            r += stack_[i].label;
        }
        return r;
    }
    std::string path() const
    {
        std::string r;
        for (std::size_t i = 0; i < pos_ && i < stack_.size(); ++i) {
            if (i) r += ',';
            r += std::to_string(stack_[i].idx);
        }
        return r.empty() ? "-" : r;
    }

    void fail(std::string const & kind, std::string const & msg)
    {
        if (parent_) {
            failed_here_ = true;
            if (out_) parent_->fail_pair(kind, msg);
            return;
        }
        ++violations_;
        if (recorded_[kind]++ < 40 && out_) {
            std::fprintf(out_, "{\"kind\":\"%s\",\"msg\":\"%s\",\"case\":\"%s\",\"path\":\"%s\"}\n",
                         esc(kind).c_str(), esc(msg).c_str(), esc(labels()).c_str(), path().c_str());
            std::fflush(out_);
        }
        failed_here_ = true;
    }
    bool check(bool ok, char const * kind, std::string const & msg = "")
    {
        ++checks_;
        if (!ok && !failed_here_) fail(kind, msg);
        yield();
        return ok;
    }
    template <typename F>
    bool checkf(bool ok, char const * kind, F msg)
    {
        ++checks_;
        if (!ok && !failed_here_) fail(kind, msg());
        yield();
        return ok;
    }

    int main(int argc, char ** argv, std::size_t shard_depth,
             std::function<void(Explorer &)> body, bool pairs = true)
    {
        std::string outf, statef, sumf, hbf;
        for (int i = 1; i + 1 < argc; i += 2) {
            std::string a = argv[i], v = argv[i + 1];
            if (a == "--tier") tier = v;
            else if (a == "--out") outf = v;
            else if (a == "--states") statef = v;
            else if (a == "--summary") sumf = v;
            else if (a == "--hb") hbf = v;
            else if (a == "--shard") { std::sscanf(v.c_str(), "%zu/%zu", &shard_, &nshards_); }
            else if (a == "--path") {
                replay_ = true;
                auto const amp = v.find('&');
                if (amp != std::string::npos) pair_ = {parse(v.substr(0, amp)), parse(v.substr(amp + 1))};
                else for (auto q : parse(v)) stack_.push_back({q, 0, ""});
            }
        }
        shard_depth_ = shard_depth;
        if (nshards_ <= 1) shard_depth_ = 0;
        out_ = outf.empty() ? stdout : std::fopen(outf.c_str(), "w");
        if (!hbf.empty()) {
            int fd = ::open(hbf.c_str(), O_RDWR | O_CREAT, 0600);
            if (fd >= 0 && ::ftruncate(fd, sizeof(Heartbeat)) == 0) {
                void * m = ::mmap(nullptr, sizeof(Heartbeat), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (m != MAP_FAILED) hb_ = static_cast<Heartbeat *>(m);
            }
        }
        std::vector<std::string> samples;
        if (replay_ && !pair_.first.empty()) {
            run_pair(body, pair_.first, pair_.second);
            std::fprintf(stderr, "case: %s\n", pair_label_.c_str());
            return violations_ ? 1 : 0;
        }
        if (pairs && !replay_) all_pairs(body);
        for (;;) {
            pos_ = 0; failed_here_ = false;
            bool pruned = false;
            try { body(*this); }
            catch (Prune const &) { pruned = true; }
            catch (std::exception const & e) {
                fail("exception", std::string("unexpected exception: ") + e.what());
            }
            if (!pruned) {
                ++executions;
                if (samples.size() < 3 || (samples.size() < 8 && (executions & (executions - 1)) == 0))
                    samples.push_back(labels());
            }
            if (hb_) ++hb_->execs;
            if (replay_) { std::fprintf(stderr, "case: %s\n", labels().c_str()); break; }
            stack_.resize(pos_);
            while (!stack_.empty() && stack_.back().idx + 1 >= stack_.back().n) stack_.pop_back();
            if (stack_.empty()) break;
            ++stack_.back().idx; ++transitions;
            stack_.back().label.clear();
        }
        if (!statef.empty()) {
            FILE * f = std::fopen(statef.c_str(), "wb");
            for (auto h : states_) std::fwrite(&h, 8, 1, f);
            std::fclose(f);
        }
        if (!sumf.empty()) {
            FILE * f = std::fopen(sumf.c_str(), "w");
            std::fprintf(f, "{\"executions\":%llu,\"transitions\":%llu,\"steps\":%llu,\"checks\":%llu,\"violations\":%llu,\"states\":%zu,\"samples\":[",
                         (unsigned long long) executions, (unsigned long long) transitions,
                         (unsigned long long) steps_, (unsigned long long) checks_,
                         (unsigned long long) violations_, states_.size());
            for (std::size_t i = 0; i < samples.size(); ++i)
                std::fprintf(f, "%s\"%s\"", i ? "," : "", esc(samples[i]).c_str());
            std::fprintf(f, "]}\n");
            std::fclose(f);
        }
        if (out_ && out_ != stdout) std::fclose(out_);
        return violations_ ? 1 : 0;
    }
private:
    using Path = std::vector<std::size_t>;
    using Body = std::function<void(Explorer &)>;
    static Path parse(std::string const & v)
    {
        Path p; std::stringstream ss(v); std::string t;
        if (v != "-") while (std::getline(ss, t, ',')) p.push_back((std::size_t) std::stoul(t));
        return p;
    }
    static std::string show(Path const & p) { std::string r; for (auto q : p) r += (r.empty() ? "" : ",") + std::to_string(q); return r.empty() ? "-" : r; }

    // One execution with the choices made by a rule; false: pruned.
    bool follow(Body const & body)
    {
        pos_ = 0; stack_.clear(); names_.clear(); failed_here_ = false;
        try { body(*this); }
        catch (Prune const &) { return false; }
        catch (std::exception const & e) { fail("exception", std::string("unexpected exception: ") + e.what()); }
        return true;
    }
    void fail_pair(std::string const & kind, std::string const & msg)
    {
        ++violations_;
        if (recorded_["turns " + kind]++ < 40 && out_) {
            std::fprintf(out_, "{\"kind\":\"%s\",\"msg\":\"%s\",\"case\":\"%s\",\"path\":\"%s\"}\n", esc(kind).c_str(), esc(msg).c_str(), esc("taking turns: " + pair_label_).c_str(), pair_path_.c_str());
            std::fflush(out_);
        }
    }
    void child(Explorer & e, FILE * out) { e.tier = tier; e.parent_ = this; e.out_ = out; }
    void run_pair(Body const & body, Path const & a, Path const & b)
    {
        Explorer e[2];
        Path const * p[2] = {&a, &b};
        for (int i = 0; i < 2; ++i) {
            child(e[i], out_);
            e[i].plan_ = [q = p[i]](std::size_t pos, char const *, std::size_t n) { return pos < q->size() ? std::min((*q)[pos], n - 1) : 0; };
        }
        pair_path_ = show(a) + "&" + show(b);
        if (pair_label_.empty() || replay_) pair_label_ = pair_path_;
        if (hb_) { std::strncpy(hb_->label, pair_path_.c_str(), sizeof hb_->label - 1); ++hb_->execs; }
        turns_.run([&] { e[0].follow(body); }, [&] { e[1].follow(body); });
        if (hb_) hb_->label[0] = 0;
        executions += 2;
        for (auto & q : e) { transitions += q.transitions; steps_ += q.steps_; checks_ += q.checks_; }
    }
    // All pairs of executions that differ in one choice, around a set of base executions, taking turns, in either order.
    void all_pairs(Body const & body)
    {
        std::set<std::pair<Path, Path>> seen;
        std::size_t count = 0;
        std::uint64_t const LONG = 20000;           // turns; longer executions only run alone
        int const bases = thorough() ? 30 : 10;
        for (int b = 0; b < bases; ++b) {
            std::size_t parts = 1;
            for (std::size_t f = 0; f < parts; ++f) {
                auto rule = [b](std::size_t pos, std::size_t n) -> std::size_t { return b == 0 ? 0 : b == 1 ? 1 % n : b == 2 ? n - 1 : (pos * (std::size_t) (2 * b + 1) + (std::size_t) b) % n; };
                Explorer e; child(e, nullptr);
                e.plan_ = [&](std::size_t pos, char const *, std::size_t n) { if (!pos) { parts = n; return f; } return rule(pos, n); };
                Turns::limit() = LONG;
                bool const ok = e.follow(body);
                Turns::limit() = 0;
                if (!ok) continue;
                Path base; for (auto const & nd : e.stack_) base.push_back(nd.idx);
                for (std::size_t p = 0; p < base.size(); ++p)
                    for (std::size_t v = 0; v < e.stack_[p].n; ++v) {
                        if (v == base[p]) continue;
                        Explorer g; child(g, nullptr);
                        g.plan_ = [&](std::size_t pos, char const * name, std::size_t n) -> std::size_t {
                            if (pos < p) return base[pos];
                            if (pos == p) return v;
                            if (pos < base.size() && e.names_[pos] == name) return base[pos] % n;
                            for (std::size_t q = p + 1; q < base.size(); ++q) if (e.names_[q] == name) return base[q] % n;
                            return rule(pos, n);
                        };
                        if (count++ % nshards_ != shard_) continue;
                        Turns::limit() = LONG;
                        bool const fit = g.follow(body);
                        Turns::limit() = 0;
                        if (!fit) continue;
                        Path other; for (auto const & nd : g.stack_) other.push_back(nd.idx);
                        if (!seen.insert({base, other}).second) continue;
                        pair_label_ = e.labels() + " | " + g.stack_[p].label;
                        run_pair(body, base, other);
                        run_pair(body, other, base);
                    }
            }
        }
    }
    std::function<std::size_t(std::size_t, char const *, std::size_t)> plan_;
    std::vector<std::string> names_;
    Explorer * parent_ = nullptr;
    std::pair<Path, Path> pair_;
    std::string pair_path_, pair_label_;
    Turns turns_;
    std::vector<Node> stack_;
    std::size_t pos_ = 0, shard_ = 0, nshards_ = 1, shard_depth_ = 0;
    bool replay_ = false, failed_here_ = false;
    std::unordered_set<std::uint64_t> states_;
    std::uint64_t violations_ = 0;
    std::map<std::string, int> recorded_;
    FILE * out_ = nullptr;
    Heartbeat * hb_ = nullptr;
};

inline bool close(double a, double b, double tol)
{
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}

} // namespace mc
#endif
