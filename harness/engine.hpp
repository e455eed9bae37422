// Choice-sequence property-based testing engine.
//
// A property is a function of a Src (a sequence of bounded choices). In
// generation mode the choices come from a PRNG seeded from VERIF_SEED and are
// recorded in memory shared with the parent; a failing, crashing or hanging case
// is recovered from there, shrunk by editing the choice sequence in forked
// children, and written out as a replay file. Enumerated legs are functions of
// an index and cover a finite space completely.
#ifndef VERIF_ENGINE_HPP
#define VERIF_ENGINE_HPP

#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <typeinfo>
#include <unordered_set>
#include <vector>
#include <sstream>
#include <stdexcept>
#include <algorithm>
#include <new>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <time.h>
#include <unistd.h>

namespace eng {

struct Failure { std::string msg; };

[[noreturn]] inline void fail(std::string m) { throw Failure{std::move(m)}; }

inline uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

inline uint64_t hash_bytes(void const* p, size_t n, uint64_t h = 0x1234567)
{
    auto c = static_cast<unsigned char const*>(p);
    for(size_t i = 0; i < n; ++i)
        h = (h ^ c[i]) * 0x100000001b3ull;
    return mix(h ^ n);
}

constexpr size_t kMaxChoices = 1 << 16;

struct Shared
{
    volatile uint32_t leg;
    volatile uint32_t kind;         // 0 idle, 1 random, 2 enumerated
    volatile uint64_t index;        // case index
    volatile uint64_t ordinal;      // how many cases the worker ran before this one
    volatile uint32_t nchoice;
    volatile uint64_t evals;
    uint32_t choice[kMaxChoices];
    char msg[8192];
};

// Words and numbers found in the sources under test. They steer generation towards inputs the
// code mentions, and have no part in the verdict.
struct Dict { std::vector<std::string> words; std::vector<uint32_t> nums; };
inline Dict& dict() { static Dict d; return d; }

// lines word=<hex> and num=<decimal>, in a dictionary or in a replay file
inline void load_dict(std::string const& path)
{
    FILE* f = std::fopen(path.c_str(), "r");
    if(! f) return;
    char line[4096];
    while(std::fgets(line, sizeof line, f))
    {
        if(! std::strncmp(line, "num=", 4)) dict().nums.push_back(uint32_t(std::strtoul(line + 4, nullptr, 10)));
        if(std::strncmp(line, "word=", 5)) continue;
        std::string w; unsigned x;
        for(char const* p = line + 5; std::sscanf(p, "%2x", &x) == 1; p += 2) w += char(x);
        dict().words.push_back(w);
    }
    std::fclose(f);
}

inline void save_dict(FILE* f)
{
    for(auto n : dict().nums) std::fprintf(f, "num=%u\n", n);
    for(auto& w : dict().words) { std::fprintf(f, "word="); for(unsigned char c : w) std::fprintf(f, "%02x", c); std::fprintf(f, "\n"); }
}

class Src
{
public:
    std::vector<uint32_t> in;
    size_t pos = 0;
    bool replay = false;
    uint64_t s[2] = {1, 2};
    Shared* sh = nullptr;

    void seed(uint64_t v)
    {
        s[0] = mix(v); s[1] = mix(s[0] ^ 0xabcdef);
        pos = 0; replay = false;
        if(sh) sh->nchoice = 0;
    }
    void load(std::vector<uint32_t> v) { in = std::move(v); pos = 0; replay = true; }

    uint64_t next()
    {
        uint64_t s1 = s[0]; uint64_t const s0 = s[1];
        uint64_t const r = s0 + s1;
        s[0] = s0; s1 ^= s1 << 23;
        s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
        return r;
    }

    // [0, n)
    uint32_t draw(uint32_t n)
    {
        if(n <= 1) return 0;
        uint32_t v;
        if(replay)
            v = pos < in.size() ? in[pos] % n : 0;
        else if(pos >= kMaxChoices)
            v = 0;
        else
        {
            v = static_cast<uint32_t>((next() >> 11) % n);
            if(sh)
            {
                sh->choice[pos] = v;
                sh->nchoice = static_cast<uint32_t>(pos + 1);
            }
        }
        ++pos;
        return v;
    }
    bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; } // 0 == false
    uint32_t range(uint32_t lo, uint32_t hi) { return lo + draw(hi - lo + 1); }
};

// called when a case begins
inline void (*g_on_case)() = nullptr;

class Ctx
{
public:
    bool tracing = false;
    bool nontrivial_ = false;
    uint64_t fp = 0;                // fingerprint of the case
    std::string trace;
    char* sink = nullptr;           // memory that survives a crash
    size_t sink_max = 0, sink_len = 0;
    void emit(std::string const& s)
    {
        trace += s; trace += '\n';
        if(! sink) return;
        for(size_t i = 0; i <= s.size() && sink_len + 1 < sink_max; ++i)
            sink[sink_len++] = i < s.size() ? s[i] : '\n';
        sink[sink_len] = 0;
    }
    std::vector<uint64_t> counts;
    static std::vector<std::string>& names() { static std::vector<std::string> v; return v; }
    static int label_id(char const* n)
    {
        auto& v = names();
        for(size_t i = 0; i < v.size(); ++i) if(v[i] == n) return int(i);
        v.push_back(n);
        return int(v.size() - 1);
    }
    void label(int id)
    {
        if(counts.size() <= size_t(id)) counts.resize(id + 1);
        ++counts[id];
    }
    void nontrivial() { nontrivial_ = true; }
    void add(std::string const& s) { fp = hash_bytes(s.data(), s.size(), fp); }
    void add(uint64_t v) { fp = mix(fp ^ v); }
    void begin() { nontrivial_ = false; fp = 0; trace.clear(); if(g_on_case) g_on_case(); }
};

#define LABEL(ctx, name) do { static int const id_ = eng::Ctx::label_id(name); (ctx).label(id_); } while(0)
#define TRACE(ctx, expr) do { if((ctx).tracing) { std::ostringstream os_; os_ << expr; (ctx).emit(os_.str()); } } while(0)

using RandFn = void(*)(Src&, Ctx&);
using EnumFn = void(*)(uint64_t, Ctx&);

struct RandLeg { char const* name; RandFn fn; uint64_t quick; uint64_t thorough; };
struct EnumLeg { char const* name; EnumFn fn; uint64_t count; uint64_t quick; }; // quick: 0 = all, else sample of that many

struct Check
{
    char const* id;
    char const* rule;               // how cases are made and what is non-trivial
    std::vector<RandLeg> rand;
    std::vector<EnumLeg> enums;
    int (*finding)(std::string const&) = nullptr; // 1 while the listed finding still fails, 0 when it does not
};

Check const& get_check();           // defined by the property's translation unit

inline std::string quote(std::string const& s, size_t max = 300)
{
    std::string r = "\"";
    char b[8];
    for(size_t i = 0; i < s.size(); ++i)
    {
        if(i == max) { r += "...("; r += std::to_string(s.size()); r += " bytes)"; break; }
        unsigned char c = s[i];
        if(c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if(c < 32 || c >= 127) { std::snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}

inline std::string json(std::string const& s)
{
    std::string r = "\"";
    char b[8];
    for(unsigned char c : s)
    {
        if(c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if(c < 32 || c >= 127) { std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}

inline double now()
{
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

// returns true when the case holds
inline bool run_guarded(std::function<void()> const& f, std::string& msg)
{
    try { f(); return true; }
    catch(Failure const& e) { msg = e.msg; }
    catch(std::exception const& e) { msg = std::string("unexpected exception escaped: ") + typeid(e).name() + ": " + e.what(); }
    catch(...) { msg = "unexpected exception of unknown type escaped"; }
    return false;
}

struct Case { int kind = 0; uint32_t leg = 0; uint64_t index = 0; std::vector<uint32_t> choices; };

inline bool run_case(Case const& c, Ctx& ctx, std::string& msg)
{
    auto const& ck = get_check();
    ctx.begin();
    return run_guarded([&]{
        if(c.kind == 1) { Src s; s.load(c.choices); ck.rand[c.leg].fn(s, ctx); }
        else ck.enums[c.leg].fn(c.index, ctx);
    }, msg);
}

// Runs a case in a child. 0 holds, 1 fails, 2 hangs
inline int run_isolated(Case const& c, int timeout, std::string& msg, std::string* trace)
{
    static Shared* sh = nullptr;
    static char* tr = nullptr;
    constexpr size_t TR = 1 << 20;
    if(! sh)
    {
        sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0));
        tr = static_cast<char*>(mmap(nullptr, TR, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0));
    }
    sh->msg[0] = 0; tr[0] = 0;
    std::fflush(nullptr);
    pid_t p = fork();
    if(p == 0)
    {
        int fd = open("/dev/null", O_WRONLY);
        if(! trace) { dup2(fd, 2); }
        dup2(fd, 1);
        signal(SIGALRM, SIG_DFL);
        alarm(timeout);
        Ctx ctx; ctx.tracing = trace != nullptr;
        if(trace) { ctx.sink = tr; ctx.sink_max = TR; }
        std::string m;
        bool ok = run_case(c, ctx, m);
        std::strncpy(sh->msg, m.c_str(), sizeof(sh->msg) - 1);
        _exit(ok ? 0 : 10);
    }
    int st = 0;
    while(waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if(trace) *trace = tr;
    if(WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if(WIFEXITED(st) && WEXITSTATUS(st) == 10) { msg = sh->msg; return 1; }
    if(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { msg = "does not terminate"; return 2; }
    if(WIFSIGNALED(st)) msg = std::string("killed by signal ") + std::to_string(WTERMSIG(st)) + " (assertion, crash or memory error)";
    else msg = "sanitizer report (exit " + std::to_string(WEXITSTATUS(st)) + ")";
    return 1;
}

inline void shrink(Case& c, int kind0, double budget)
{
    if(c.kind != 1) return;
    double const t0 = now();
    int const to = kind0 == 2 ? 3 : 5;
    std::string m;
    int tries = 0;
    auto bad = [&](std::vector<uint32_t> const& v) {
        if(now() - t0 > budget || ++tries > 4000) return false;
        Case d = c; d.choices = v;
        return run_isolated(d, to, m, nullptr) != 0;
    };
    bool progress = true;
    while(progress && now() - t0 < budget)
    {
        progress = false;
        // truncate
        for(size_t n = c.choices.size(); n > 0;)
        {
            size_t half = n / 2;
            auto v = c.choices; v.resize(half);
            if(half < c.choices.size() && bad(v)) { c.choices = v; progress = true; n = half; }
            else break;
        }
        // delete blocks
        for(size_t b = std::min<size_t>(64, c.choices.size()); b >= 1; b /= 2)
        {
            for(size_t i = 0; i + b <= c.choices.size();)
            {
                auto v = c.choices;
                v.erase(v.begin() + i, v.begin() + i + b);
                if(bad(v)) { c.choices = v; progress = true; }
                else i += b;
                if(now() - t0 > budget) return;
            }
        }
        // lower values
        for(size_t i = 0; i < c.choices.size(); ++i)
        {
            if(c.choices[i] == 0) continue;
            auto v = c.choices; v[i] = 0;
            if(bad(v)) { c.choices = v; progress = true; continue; }
            uint32_t lo = 0, hi = c.choices[i];
            while(hi - lo > 1)
            {
                uint32_t mid = lo + (hi - lo) / 2;
                v = c.choices; v[i] = mid;
                if(bad(v)) { c.choices = v; hi = mid; progress = true; }
                else lo = mid;
                if(now() - t0 > budget) return;
            }
        }
    }
    while(! c.choices.empty() && c.choices.back() == 0) c.choices.pop_back();
}

struct Options
{
    uint64_t seed = 1;
    bool thorough = false;
    int workers = 8;
    double wall = 300;      // inconclusive beyond: stop generating
    double scale = 1;
    std::string out;        // result json
    std::string replay_out; // replay file
    std::string replay_in;
    std::string build = "?";
    std::string only;       // only this leg
    uint64_t enum_max = ~0ull; // larger enumerations are sampled
};

inline Case load_replay(std::string const& path)
{
    Case c;
    FILE* f = std::fopen(path.c_str(), "r");
    if(! f) { std::fprintf(stderr, "cannot open %s\n", path.c_str()); std::exit(3); }
    char* line = nullptr; size_t cap = 0;
    std::string kind, leg;
    while(getline(&line, &cap, f) > 0)
    {
        std::string l = line;
        while(! l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back();
        auto eq = l.find('=');
        if(l.empty() || l[0] == '#' || eq == std::string::npos) continue;
        auto k = l.substr(0, eq), v = l.substr(eq + 1);
        if(k == "kind") kind = v;
        else if(k == "leg") leg = v;
        else if(k == "index") c.index = std::strtoull(v.c_str(), nullptr, 10);
        else if(k == "choices")
        {
            std::istringstream is(v); std::string t;
            while(std::getline(is, t, ',')) if(! t.empty()) c.choices.push_back(std::strtoul(t.c_str(), nullptr, 10));
        }
    }
    std::free(line); std::fclose(f);
    auto const& ck = get_check();
    c.kind = kind == "enum" ? 2 : 1;
    bool found = false;
    if(c.kind == 1) { for(size_t i = 0; i < ck.rand.size(); ++i) if(leg == ck.rand[i].name) { c.leg = i; found = true; } }
    else for(size_t i = 0; i < ck.enums.size(); ++i) if(leg == ck.enums[i].name) { c.leg = i; found = true; }
    if(! found) { std::fprintf(stderr, "unknown leg %s\n", leg.c_str()); std::exit(3); }
    return c;
}

// A replay file with kind=span
template<class Sp>
bool load_span(std::string const& path, Options& o, Sp& sp)
{
    std::map<std::string, std::string> v;
    FILE* f = std::fopen(path.c_str(), "r");
    if(! f) return false;
    char line[4096];
    while(std::fgets(line, sizeof line, f))
    {
        std::string l = line;
        while(! l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back();
        auto eq = l.find('=');
        if(l.empty() || l[0] == '#' || eq == std::string::npos) continue;
        v[l.substr(0, eq)] = l.substr(eq + 1);
    }
    std::fclose(f);
    if(v["kind"] != "span") return false;
    auto n = [&](char const* k) { return std::strtoull(v[k].c_str(), nullptr, 10); };
    o.seed = n("seed"); o.thorough = n("thorough"); o.workers = int(n("workers")); o.scale = std::atof(v["scale"].c_str());
    o.enum_max = n("enum-max"); o.only = v["only"]; sp.w = int(n("worker")); sp.from = n("from"); sp.to = n("to");
    return true;
}

inline std::string case_name(Case const& c)
{
    auto const& ck = get_check();
    return c.kind == 1 ? ck.rand[c.leg].name : ck.enums[c.leg].name;
}

struct WorkerFiles { std::string base; };

inline uint64_t enum_limit(Options const& o, EnumLeg const& e)
{
    uint64_t n = e.count;
    if(! o.thorough && e.quick != 0) n = std::min(n, e.quick);
    return std::min(n, o.enum_max);
}

// The cases of worker w in order: f(kind, leg, idx, seed). False from f ends the walk.
template<class F>
void each_case(Options const& o, int w, F f)
{
    auto const& ck = get_check();
    for(size_t l = 0; l < ck.enums.size(); ++l)
    {
        auto const& e = ck.enums[l];
        if(! o.only.empty() && o.only != e.name) continue;
        uint64_t const n = e.count;
        uint64_t const lim = enum_limit(o, e);
        // a sampled leg visits a pseudo-random subset
        for(uint64_t i = w; i < lim; i += o.workers)
            if(! f(2, uint32_t(l), lim == n ? i : mix(o.seed * 1000003 + i) % n, uint64_t(0))) return;
    }
    for(size_t l = 0; l < ck.rand.size(); ++l)
    {
        auto const& r = ck.rand[l];
        if(! o.only.empty() && o.only != r.name) continue;
        uint64_t const n = uint64_t((o.thorough ? r.thorough : r.quick) * o.scale);
        for(uint64_t i = w; i < n; i += o.workers)
            if(! f(1, uint32_t(l), i, mix(o.seed) ^ mix(l * 1000 + 7) ^ mix(i * 2 + 1))) return;
    }
}

// Runs the cases number from..to of worker w in one child process, for failures that
// need what earlier cases left behind. 0 holds, 1 fails, 2 hangs
struct Span { int w = 0; uint64_t from = 0, to = 0; };

inline int run_span(Options const& o, Span const& sp, int timeout, std::string& msg, std::string* trace)
{
    static Shared* sh = nullptr;
    if(! sh) sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0));
    sh->msg[0] = 0;
    std::fflush(nullptr);
    pid_t p = fork();
    if(p == 0)
    {
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1); dup2(fd, 2);
        signal(SIGALRM, SIG_DFL);
        alarm(timeout);
        auto const& ck = get_check();
        Ctx ctx; Src src; uint64_t k = 0; bool ok = true; std::string m;
        each_case(o, sp.w, [&](int kind, uint32_t leg, uint64_t idx, uint64_t seed) {
            if(k >= sp.from)
            {
                ctx.begin();
                ok = run_guarded([&]{
                    if(kind == 2) ck.enums[leg].fn(idx, ctx);
                    else { src.seed(seed); ck.rand[leg].fn(src, ctx); } }, m);
            }
            return ok && ++k <= sp.to;
        });
        std::strncpy(sh->msg, m.c_str(), sizeof(sh->msg) - 1);
        _exit(ok ? 0 : 10);
    }
    int st = 0;
    while(waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if(trace) *trace = "cases " + std::to_string(sp.from) + " to " + std::to_string(sp.to) + " of worker " + std::to_string(sp.w) + ", in one process";
    if(WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if(WIFEXITED(st) && WEXITSTATUS(st) == 10) { msg = sh->msg; return 1; }
    if(WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL)) { msg = "does not terminate"; return 2; }
    if(WIFSIGNALED(st)) msg = std::string("killed by signal ") + std::to_string(WTERMSIG(st)) + " (assertion, crash or memory error)";
    else msg = "sanitizer report (exit " + std::to_string(WEXITSTATUS(st)) + ")";
    return 1;
}

[[noreturn]] inline void worker(Options const& o, int w, Shared* sh, std::string const& base)
{
    auto const& ck = get_check();
    signal(SIGALRM, SIG_DFL);
    Ctx ctx;
    std::unordered_set<uint64_t> seen;
    constexpr size_t SEEN_MAX = 2000000;
    struct Sample { Case c; };
    std::vector<Sample> samples;
    uint64_t evals = 0, nontriv = 0;
    double const t0 = now();
    bool timeup = false;
    std::map<std::string, uint64_t> legev;
    std::map<uint64_t, uint64_t> legnt, enumev, randev;
    auto dump = [&]{
        FILE* f = std::fopen((base + ".hash").c_str(), "wb");
        if(f) { std::vector<uint64_t> v(seen.begin(), seen.end()); std::fwrite(v.data(), 8, v.size(), f); std::fclose(f); }
        f = std::fopen((base + ".stat").c_str(), "w");
        if(f)
        {
            std::fprintf(f, "evals %llu\nnontrivial %llu\ntimeup %d\n", (unsigned long long)evals, (unsigned long long)nontriv, timeup ? 1 : 0);
            for(size_t i = 0; i < ctx.counts.size(); ++i)
                std::fprintf(f, "label %llu %s\n", (unsigned long long)ctx.counts[i], Ctx::names()[i].c_str());
            for(auto& e : legev) std::fprintf(f, "leg %llu %s\n", (unsigned long long)e.second, e.first.c_str());
            std::fclose(f);
        }
        // samples: replayed with tracing on
        f = std::fopen((base + ".smp").c_str(), "w");
        if(f)
        {
            for(auto& s : samples)
            {
                Ctx c2; c2.tracing = true; std::string m;
                run_case(s.c, c2, m);
                std::string t = "[" + case_name(s.c) + "] " + c2.trace;
                while(! t.empty() && t.back() == '\n') t.pop_back();
                if(t.size() > 1500) t = t.substr(0, 1500) + "...";
                std::fprintf(f, "%s\n", json(t).c_str());
            }
            std::fclose(f);
        }
    };
    auto account = [&](int kind, uint32_t leg, uint64_t idx, Src* src) {
        ++evals; ++sh->evals;
        if(! ctx.nontrivial_) return;
        ++nontriv;
        uint64_t h = ctx.fp;
        if(h == 0)
        {
            if(kind == 1) h = hash_bytes(sh->choice, sh->nchoice * 4, leg + 77);
            else h = mix(idx * 31 + leg);
        }
        bool fresh = seen.size() < SEEN_MAX && seen.insert(h ^ mix(leg * 2 + kind)).second;
        // keep a few samples of every leg
        uint64_t const k = ++legnt[kind * 1000 + leg];
        if(fresh && (k == 20 || k == 300 || k == 4000))
        {
            Sample s; s.c.kind = kind; s.c.leg = leg; s.c.index = idx;
            if(kind == 1 && src) s.c.choices.assign(sh->choice, sh->choice + sh->nchoice);
            samples.push_back(std::move(s));
        }
    };
    auto failed = [&](std::string const& m) {
        std::strncpy(sh->msg, m.c_str(), sizeof(sh->msg) - 1);
        alarm(0);
        _exit(10);
    };
    std::string msg;
    Src src; src.sh = sh;
    each_case(o, w, [&](int kind, uint32_t leg, uint64_t idx, uint64_t seed) {
        if((evals & 63) == 0) { alarm(60); if(now() - t0 > o.wall) { timeup = true; return false; } }
        sh->leg = leg; sh->kind = kind; sh->index = idx; sh->ordinal = evals;
        ctx.begin();
        bool ok;
        if(kind == 2) ok = run_guarded([&]{ ck.enums[leg].fn(idx, ctx); }, msg);
        else { src.seed(seed); ok = run_guarded([&]{ ck.rand[leg].fn(src, ctx); }, msg); }
        if(! ok) failed(msg);
        account(kind, leg, idx, kind == 1 ? &src : nullptr);
        ++(kind == 2 ? enumev : randev)[leg];
        return true;
    });
    for(auto& e : enumev) legev[ck.enums[e.first].name] += e.second;
    for(auto& e : randev) legev[ck.rand[e.first].name] += e.second;
    alarm(0);
    sh->kind = 0;
    dump();
    _exit(0);
}

inline int write_replay(Options const& o, Case const& c, std::string const& msg, std::string const& trace)
{
    FILE* f = std::fopen(o.replay_out.c_str(), "w");
    if(! f) return -1;
    std::fprintf(f, "property=%s\nbuild=%s\nleg=%s\nkind=%s\n", get_check().id, o.build.c_str(), case_name(c).c_str(), c.kind == 1 ? "rand" : "enum");
    if(c.kind == 2) std::fprintf(f, "index=%llu\n", (unsigned long long)c.index);
    else
    {
        std::fprintf(f, "choices=");
        for(size_t i = 0; i < c.choices.size(); ++i) std::fprintf(f, "%s%u", i ? "," : "", c.choices[i]);
        std::fprintf(f, "\n");
        save_dict(f);
    }
    std::istringstream is(msg + "\n" + trace); std::string l;
    while(std::getline(is, l)) std::fprintf(f, "# %s\n", l.c_str());
    std::fclose(f);
    return 0;
}

inline int engine_main(int argc, char** argv)
{
    Options o;
    for(int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]{ if(++i >= argc) std::exit(3); return std::string(argv[i]); };
        if(a == "--seed") o.seed = std::strtoull(val().c_str(), nullptr, 10);
        else if(a == "--thorough") o.thorough = true;
        else if(a == "--workers") o.workers = std::atoi(val().c_str());
        else if(a == "--wall") o.wall = std::atof(val().c_str());
        else if(a == "--scale") o.scale = std::atof(val().c_str());
        else if(a == "--out") o.out = val();
        else if(a == "--replay-out") o.replay_out = val();
        else if(a == "--replay") o.replay_in = val();
        else if(a == "--build") o.build = val();
        else if(a == "--only") o.only = val();
        else if(a == "--dict") load_dict(val());
        else if(a == "--finding") { auto const v = val(); return get_check().finding ? get_check().finding(v) : 3; }
        else if(a == "--enum-max") o.enum_max = std::strtoull(val().c_str(), nullptr, 10);
        else { std::fprintf(stderr, "bad option %s\n", a.c_str()); return 3; }
    }
    if(! o.replay_in.empty())
    {
        load_dict(o.replay_in);
        Span sp;
        if(load_span(o.replay_in, o, sp))
        {
            std::string msg, trace;
            int r = run_span(o, sp, 600, msg, &trace);
            std::printf("%s\n%s\n", trace.c_str(), r == 0 ? "holds" : msg.c_str());
            return r == 0 ? 0 : 1;
        }
        Case c = load_replay(o.replay_in);
        std::string msg, trace;
        int r = run_isolated(c, 20, msg, &trace);
        std::printf("%s%s\n", trace.c_str(), r == 0 ? "holds" : msg.c_str());
        return r == 0 ? 0 : 1;
    }
    double const t0 = now();
    std::vector<Shared*> sh(o.workers);
    std::vector<pid_t> pid(o.workers);
    std::fflush(nullptr);
    for(int w = 0; w < o.workers; ++w)
    {
        sh[w] = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0));
        pid[w] = fork();
        if(pid[w] == 0)
        {
            int fd = open((o.out + ".w" + std::to_string(w) + ".err").c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644);
            if(fd >= 0) dup2(fd, 2);
            worker(o, w, sh[w], o.out + ".w" + std::to_string(w));
        }
    }
    struct Found { Case c; std::string msg; int how; int w; uint64_t ordinal; };
    std::vector<Found> found;
    bool stopped = false;
    for(int left = o.workers; left > 0;)
    {
        int st = 0;
        pid_t p = waitpid(-1, &st, 0);
        if(p < 0) { if(errno == EINTR) continue; break; }
        int w = -1;
        for(int i = 0; i < o.workers; ++i) if(pid[i] == p) w = i;
        if(w < 0) continue;
        --left; pid[w] = 0;
        if(WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if(stopped && WIFSIGNALED(st) && WTERMSIG(st) == SIGTERM) continue;
        Found f;
        f.c.kind = sh[w]->kind; f.c.leg = sh[w]->leg; f.c.index = sh[w]->index;
        f.c.choices.assign(sh[w]->choice, sh[w]->choice + sh[w]->nchoice);
        f.how = 1; f.w = w; f.ordinal = sh[w]->ordinal;
        if(WIFEXITED(st) && WEXITSTATUS(st) == 10) f.msg = sh[w]->msg;
        else if(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { f.msg = "does not terminate"; f.how = 2; }
        else if(WIFSIGNALED(st)) f.msg = "killed by signal " + std::to_string(WTERMSIG(st));
        else f.msg = "exit " + std::to_string(WEXITSTATUS(st));
        if(f.c.kind == 1 || f.c.kind == 2) found.push_back(f);
        else { std::fprintf(stderr, "worker died outside a case: %s\n", f.msg.c_str()); }
        // one confirmed failure is enough: stop the others soon
        if(! stopped)
        {
            stopped = true;
            for(int i = 0; i < o.workers; ++i) if(pid[i]) kill(pid[i], SIGTERM);
        }
    }
    // merge
    uint64_t evals = 0, nontriv = 0; bool timeup = false;
    std::map<std::string, uint64_t> labels, legs;
    std::vector<uint64_t> hashes;
    std::vector<std::string> samples;
    std::map<std::string, std::vector<std::string>> bylegs;
    for(int w = 0; w < o.workers; ++w)
    {
        std::string base = o.out + ".w" + std::to_string(w);
        if(FILE* f = std::fopen((base + ".stat").c_str(), "r"))
        {
            char k[64], name[512]; unsigned long long v;
            while(std::fscanf(f, "%63s %llu", k, &v) == 2)
            {
                std::string key = k;
                if(key == "evals") evals += v;
                else if(key == "nontrivial") nontriv += v;
                else if(key == "timeup") timeup = timeup || v;
                else if(std::fscanf(f, " %511[^\n]", name) == 1) (key == "leg" ? legs : labels)[name] += v;
            }
            std::fclose(f);
        }
        if(FILE* f = std::fopen((base + ".hash").c_str(), "rb"))
        {
            uint64_t b[1024]; size_t n;
            while((n = std::fread(b, 8, 1024, f)) > 0) hashes.insert(hashes.end(), b, b + n);
            std::fclose(f);
        }
        if(FILE* f = std::fopen((base + ".smp").c_str(), "r"))
        {
            char* line = nullptr; size_t cap = 0;
            while(getline(&line, &cap, f) > 0)
            {
                std::string l = line; if(! l.empty() && l.back() == '\n') l.pop_back();
                auto& v = bylegs[l.substr(0, l.find(']'))];
                if(v.size() < size_t(w) + 2 && v.size() < 4) v.push_back(l);
            }
            std::free(line); std::fclose(f);
        }
    }
    if(! found.empty() && evals == 0)
        for(int w = 0; w < o.workers; ++w) evals += sh[w]->evals;
    std::sort(hashes.begin(), hashes.end());
    uint64_t distinct = std::unique(hashes.begin(), hashes.end()) - hashes.begin();
    for(size_t k = 0; k < 4; ++k)
        for(auto& e : bylegs) if(k < e.second.size() && samples.size() < 24) samples.push_back(e.second[k]);

    // confirm, shrink, confirm
    std::sort(found.begin(), found.end(), [](Found const& a, Found const& b) {
        if(a.how != b.how) return a.how < b.how;
        if(a.c.kind != b.c.kind) return a.c.kind > b.c.kind;
        if(a.c.kind == 2) return a.c.index < b.c.index;
        return a.c.choices.size() < b.c.choices.size(); });
    bool violated = false; std::string vmsg, vtrace;
    unsigned unconfirmed = 0;
    for(auto& f : found)
    {
        std::string m;
        bool all = true;
        for(int k = 0; k < 3 && all; ++k) all = run_isolated(f.c, 15, m, nullptr) != 0;
        if(! all) { ++unconfirmed; std::fprintf(stderr, "not reproduced: %s\n", f.msg.c_str()); continue; }
        shrink(f.c, f.how, o.thorough ? 60 : 20);
        all = true;
        for(int k = 0; k < 3 && all; ++k) all = run_isolated(f.c, 15, m, &vtrace) != 0;
        if(! all) { ++unconfirmed; continue; }
        violated = true; vmsg = m;
        write_replay(o, f.c, vmsg, vtrace);
        break;
    }
    // Not reproducible alone: it may need what earlier cases of the same process left behind
    if(! violated)
        for(auto& f : found)
        {
            if(f.how != 1 || now() - t0 > o.wall + 120) continue;
            std::string m;
            auto bad = [&](uint64_t from, int times) {
                Span sp; sp.w = f.w; sp.from = from; sp.to = f.ordinal;
                for(int k = 0; k < times; ++k) if(run_span(o, sp, int(o.wall) + 60, m, &vtrace) != 1) return false;
                return true;
            };
            if(! bad(0, 2)) continue;
            uint64_t from = 0;
            for(uint64_t n = 2; n <= f.ordinal; n *= 4)
                if(bad(f.ordinal - n + 1, 2)) { from = f.ordinal - n + 1; break; }
            if(! bad(from, 1)) continue;
            violated = true; vmsg = m + " [only after the cases before it, in the same process]";
            if(FILE* g = std::fopen(o.replay_out.c_str(), "w"))
            {
                std::fprintf(g, "property=%s\nbuild=%s\nkind=span\nseed=%llu\nthorough=%d\nworkers=%d\nscale=%.17g\nenum-max=%llu\nonly=%s\nworker=%d\nfrom=%llu\nto=%llu\n# %s\n# %s\n",
                    get_check().id, o.build.c_str(), (unsigned long long)o.seed, o.thorough ? 1 : 0, o.workers, o.scale, (unsigned long long)o.enum_max, o.only.c_str(),
                    f.w, (unsigned long long)from, (unsigned long long)f.ordinal, vmsg.c_str(), vtrace.c_str());
                save_dict(g);
                std::fclose(g);
            }
            break;
        }
    FILE* f = std::fopen(o.out.c_str(), "w");
    if(! f) return 3;
    std::fprintf(f, "{\"evaluations\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu, \"time_limit_reached\": %s,\n",
        (unsigned long long)evals, (unsigned long long)nontriv, (unsigned long long)distinct, timeup ? "true" : "false");
    std::fprintf(f, "\"unconfirmed\": %u, \"worker_deaths\": %zu, \"rule\": %s,\n\"labels\": {", unconfirmed, found.size(), json(get_check().rule).c_str());
    bool first = true;
    for(auto& e : labels) { std::fprintf(f, "%s%s: %llu", first ? "" : ", ", json(e.first).c_str(), (unsigned long long)e.second); first = false; }
    std::fprintf(f, "},\n\"legs\": {"); first = true;
    for(auto& e : legs) { std::fprintf(f, "%s%s: %llu", first ? "" : ", ", json(e.first).c_str(), (unsigned long long)e.second); first = false; }
    std::fprintf(f, "},\n\"exhaustive_legs\": ["); first = true;
    for(auto& e : get_check().enums)
        if(enum_limit(o, e) == e.count) { std::fprintf(f, "%s%s", first ? "" : ", ", json(std::string(e.name) + " (" + std::to_string(e.count) + ")").c_str()); first = false; }
    std::fprintf(f, "],\n\"samples\": [");
    for(size_t i = 0; i < samples.size(); ++i) std::fprintf(f, "%s%s", i ? ",\n" : "", samples[i].c_str());
    std::fprintf(f, "],\n\"violation\": %s, \"message\": %s, \"trace\": %s, \"wall\": %.2f}\n", violated ? "true" : "false", json(vmsg).c_str(), json(vtrace.substr(0, 4000)).c_str(), now() - t0);
    std::fclose(f);
    for(int w = 0; w < o.workers; ++w)
        for(char const* e : {".stat", ".hash", ".smp"})
            unlink((o.out + ".w" + std::to_string(w) + e).c_str());
    return violated ? 1 : 0;
}

} // eng

#endif
