// C23: results depend only on the object and the arguments
#include "check.hpp"
#include <cfenv>
#include <clocale>
#include <sys/stat.h>
#include <locale>
#include <pthread.h>
#include <thread>
#include <atomic>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace ref;

// A program on one url, made without the library
struct Prog
{
    string init;
    std::vector<Op> ops;
    std::vector<string> keys;       // looked up after every step
    std::vector<string> schemes;    // given to string_to_scheme
    std::vector<int> codes;
};

static void zygote();
static Prog program(Src& r, Ctx& c, size_t most)
{
    zygote();                       // while this process has not used the library
    Prog g;
    Parts p;
    if(r.draw(4)) { g.init = r.draw(5) ? gen::parts(r).text() : gen::any_url(r); }
    Parts q;
    if(ref::parse(g.init, q)) p = q;
    size_t n = r.draw(uint32_t(most + 1));
    for(size_t i = 0; i < n; ++i)
    {
        Op o = gen::op(r, p);
        q = p;
        if(ref::apply(q, o)) p = q;
        g.ops.push_back(o);
    }
    auto ps = p.params();
    for(size_t i = 0, k = r.draw(3); i < k; ++i)
        g.keys.push_back(! ps.empty() && r.draw(2) ? decode(ps[r.draw(uint32_t(ps.size()))].first) : gen::bytes(r, r.draw(4)));
    for(size_t i = 0, k = r.draw(3); i < k; ++i)
    {
        static char const* const a[] = {"FILE", "file", "http", "HTTPS", "ftp", "ws", "WSS", "FTP", "WS", "fiLE", "Http"};
        string s = gen::pick(r, a);
        if(r.draw(3) == 2) s[r.draw(uint32_t(s.size()))] = char(gen::any_byte(r));
        g.schemes.push_back(s);
    }
    if(r.draw(3) == 2) g.codes.push_back(r.draw(20));
    c.add(g.init); for(auto& o : g.ops) { c.add(o.k); c.add(o.s); c.add(o.i * 7 + o.n); }
    if(! g.init.empty() || n) c.nontrivial();
    return g;
}

// erasures are only known to be representable (known finding) on the state they were made for
static void drop_erasures(Prog& g)
{
    g.ops.erase(std::remove_if(g.ops.begin(), g.ops.end(), [](Op const& o) { return o.k == SEG_ERASE || o.k == SEG_ERASE_RANGE; }), g.ops.end());
}

static void show(Ctx& c, Prog const& g, char const* who)
{
    TRACE(c, who << ": url u(" << quote(g.init) << ");");
    for(auto& o : g.ops) TRACE(c, who << ":   " << gen::show(o));
    for(auto& k : g.keys) TRACE(c, who << ":   look up " << quote(k));
    for(auto& k : g.schemes) TRACE(c, who << ":   string_to_scheme " << quote(k));
}

template<class U>
static string look(U const& u)
{
    Obs o; lib::observe(u, o);
    string s;
    for(auto& x : o) { s += x; s += '\x1f'; }
    return s;
}

template<class U>
static string keys(U const& u, std::vector<string> const& ks)
{
    string s;
    auto const l = u.params();
    for(auto& k : ks)
    {
        Arg a(k);
        s += l.contains(a) ? "+" : "-"; s += std::to_string(l.count(a)); s += "[" + l[a] + "]";
        try { s += l.at(a); } catch(std::out_of_range const& e) { s += "!"; s += e.what(); }
        s += '\x1e';
    }
    return s;
}

// An allocator that lets something else happen in the middle of a call
struct Meanwhile
{
    virtual void step() = 0;
    static Meanwhile*& now() { static thread_local Meanwhile* p = nullptr; return p; }
    static void happen()
    {
        Meanwhile* m = now();
        if(! m) return;
        now() = nullptr;            // not within itself
        struct Back { Meanwhile* m; ~Back() { now() = m; } } b{m};
        m->step();
    }
};

template<class T>
struct Hook
{
    using value_type = T;
    Hook() = default;
    template<class U> Hook(Hook<U> const&) noexcept {}
    T* allocate(size_t n) { Meanwhile::happen(); auto p = std::allocator<T>().allocate(n); Meanwhile::happen(); return p; }
    void deallocate(T* p, size_t n) { Meanwhile::happen(); std::allocator<T>().deallocate(p, n); Meanwhile::happen(); }
    template<class U> bool operator==(Hook<U> const&) const noexcept { return true; }
    template<class U> bool operator!=(Hook<U> const&) const noexcept { return false; }
};

// the decoding observers, into strings that use the allocator
template<class A, class U>
static string decoded(U const& u)
{
    A const a{};
    string s;
    auto add = [&](std::basic_string<char, std::char_traits<char>, A> const& x) { s.append(x.data(), x.size()); s += '\x1e'; };
    add(u.user(a)); add(u.password(a)); add(u.host(a)); add(u.query(a)); add(u.fragment(a));
    auto const sg = u.segments(); auto const pr = u.params();
    for(auto x : sg) add(x.string(a));
    for(auto x : pr) { add(x.key(a)); add(x.value(a)); }
    return s;
}

// One step at a time, so that two can be interleaved
template<class Url>
struct BasicRun
{
    Prog const& g;
    Url u;
    size_t i = 0;
    string t;                       // the transcript
    explicit BasicRun(Prog const& p) : g(p) {}
    static int& fill() { static thread_local int x = 0; return x; }     // what the memory of a view holds before
    bool step()
    {
        size_t const k = i++;
        if(k == 0)
        {
            Arg a(g.init);
            try { u.set_encoded_url(a); t += "ok"; } catch(urls::invalid_part const& e) { t += "refused: "; t += e.what(); }
            alignas(urls::url_view) unsigned char m[sizeof(urls::url_view)];
            std::memset(m, fill(), sizeof m);
            try { auto* v = new(m) urls::url_view{sv(a)}; t += look(*v); v->~url_view(); } catch(urls::invalid_part const&) { t += "refused"; }
        }
        else if(k <= g.ops.size())
        {
            // a segment edit may not fit if the library and the model parted earlier
            Op const& o = g.ops[k - 1];
            size_t const n = u.segments().size();
            bool const fits = o.k < SEG_INSERT || o.k > SEG_ERASE_RANGE ||
                (o.k == SEG_ERASE_RANGE ? o.j <= n : (o.k == SEG_INSERT || o.k == SEG_INSERT_ENC) ? o.i <= n : o.i < n);
            size_t ret = 0;
            if(! fits) t += "does not fit";
            else { t += lib::oname(lib::try_call(u, o, &ret)); t += std::to_string(ret); }
        }
        else if(k == g.ops.size() + 1)
        {
            for(auto& s : g.schemes)
            {
                Arg a(s);
                auto x = urls::string_to_scheme(a);
                t += std::to_string(int(x)); t += S(urls::to_string(x));
            }
            for(int v : g.codes)
            {
                auto ec = make_error_code(static_cast<urls::error>(v));
                t += ec.category().name(); t += ec.message(); t += ec == urls::condition::parse_error ? "=" : "!";
            }
            Url w(u);
            t += look(w);
            if(! std::is_same<Url, urls::url>::value) t += decoded<Hook<char>>(w);
        }
        else return false;
        t += look(u); t += keys(u, g.keys);
        t += std::to_string(u.capacity());
        t += '\n';
        return true;
    }
};

using Run = BasicRun<urls::url>;

static string transcript(Prog const& g)
{
    Run r(g);
    while(r.step()) {}
    return r.t;
}

static void differ(string const& a, string const& b, string const& what)
{
    if(a == b) return;
    size_t i = 0;
    while(i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    size_t s = i > 30 ? i - 30 : 0;
    fail(what + ": " + quote(a.substr(s, 80)) + " became " + quote(b.substr(s, 80)));
}

static void r_again(Src& r, Ctx& c)
{
    Prog g = program(r, c, 6);
    size_t n = 1 + r.draw(3);
    std::vector<Prog> noise;
    for(size_t i = 0; i < n; ++i) noise.push_back(program(r, c, 4));
    show(c, g, "first");
    string const a = transcript(g);
    for(auto& x : noise) { show(c, x, "then"); transcript(x); }
    show(c, g, "again");
    differ(a, transcript(g), "the same program gives another result after other urls were used");
}

static void r_interleave(Src& r, Ctx& c)
{
    size_t n = 2 + r.draw(2);
    std::vector<Prog> g;
    for(size_t i = 0; i < n; ++i) { g.push_back(program(r, c, 8)); show(c, g.back(), i == 0 ? "A" : i == 1 ? "B" : "C"); }
    std::vector<string> alone;
    for(auto& x : g) alone.push_back(transcript(x));
    std::vector<std::unique_ptr<Run>> u;
    for(auto& x : g) u.emplace_back(new Run(x));
    std::vector<size_t> live;
    for(size_t i = 0; i < n; ++i) live.push_back(i);
    while(! live.empty())
    {
        size_t k = r.draw(uint32_t(live.size()));
        if(! u[live[k]]->step()) live.erase(live.begin() + k);
    }
    for(size_t i = 0; i < n; ++i) differ(alone[i], u[i]->t, "a program gives another result when interleaved with others");
}

// Calls on other objects in the middle of a call: whenever memory is asked for or given back
static void r_within(Src& r, Ctx& c)
{
    using HRun = BasicRun<urls::basic_url<Hook<char>>>;
    Prog g = program(r, c, 6), h = program(r, c, 8);
    show(c, g, "outer"); show(c, h, "in the middle of its calls");
    HRun alone(g);
    while(alone.step()) {}
    string const inner = transcript(h);
    struct Inner : Meanwhile
    {
        Prog const& h; string const& expect; std::unique_ptr<Run> run; size_t done = 0; string bad;
        Inner(Prog const& p, string const& e) : h(p), expect(e) {}
        void step() override
        {
            if(done > 30) return;
            if(! run) run.reset(new Run(h));
            if(run->step()) return;
            ++done;
            if(run->t != expect && bad.empty()) bad = run->t;
            run.reset();
        }
    } m(h, inner);
    struct Set { explicit Set(Meanwhile* p) { Meanwhile::now() = p; } ~Set() { Meanwhile::now() = nullptr; } };
    string t;
    {
        Set s(&m);
        HRun o(g);
        while(o.step()) {}
        t = o.t;
    }
    if(m.done) LABEL(c, "a whole program within");
    differ(alone.t, t, "a program gives another result when another url is used in the middle of its calls");
    if(! m.bad.empty()) differ(inner, m.bad, "a program gives another result in the middle of another's calls");
}

//----------------------------------------------------------
// Where things lie: the same arguments in one buffer used again and again, at some
// alignment and between some bytes; the objects in memory that held something else

static string placed(Prog const& g, std::vector<char>& buf, size_t off, int fill, std::vector<unsigned char>& mem)
{
    struct In
    {
        In(char* p, size_t n, int f) { lib::Arg::place() = {p, n}; Run::fill() = f; }
        ~In() { lib::Arg::place() = {nullptr, 0}; Run::fill() = 0; }
    } in(buf.data() + off, buf.size() - off, fill);
    void* m = mem.data(); size_t n = mem.size();
    m = std::align(alignof(Run), sizeof(Run), m, n);
    if(fill != 1) std::memset(m, fill, sizeof(Run));    // 1: as the last object left it
    std::unique_ptr<Run, void(*)(Run*)> r(new(m) Run(g), [](Run* p) { p->~Run(); });
    while(r->step()) {}
    return r->t;
}

static void r_place(Src& r, Ctx& c)
{
    Prog g = program(r, c, 3);
    Prog h = g;
    drop_erasures(h);
    auto other = [&](string& s) {
        string t = r.draw(3) ? gen::nudge(r, s) : gen::any_url(r);
        // mostly of the same size
        if(r.draw(4)) { if(t.size() > s.size()) t.resize(s.size()); else t.append(s, t.size(), string::npos); }
        s = t;
    };
    if(r.draw(2) && ! h.init.empty()) h.init[r.draw(uint32_t(h.init.size()))] = "/?#:@a%=&.0"[r.draw(11)];
    else other(h.init);
    for(auto& o : h.ops) if(r.draw(2)) other(o.s);
    for(auto& k : h.keys) if(r.draw(2)) other(k);
    show(c, g, "one"); show(c, h, "other");
    static int const fills[] = {0, 0xff, 0xcd, 1, 0x2f};
    size_t const off = r.draw(17);
    static char const* const ar[] = {"1", "%41", "/", "a", "]", ":0", "@", "=", "&"};
    string const around = gen::pick(r, ar);
    int const f1 = fills[r.draw(5)], f2 = fills[r.draw(5)];
    TRACE(c, "arguments at offset " << off << " between " << quote(around) << ", objects over " << f1 << ", " << f2);
    c.add(off); c.add(around); c.add(h.init);
    string const a = transcript(g), b = transcript(h);
    size_t n = 0;
    for(Prog const* p : {&g, &h})
    {
        n = std::max(n, p->init.size());
        for(auto& o : p->ops) n = std::max(n, o.s.size());
        for(auto& k : p->keys) n = std::max(n, k.size());
        for(auto& k : p->schemes) n = std::max(n, k.size());
    }
    std::vector<char> buf(n + 64);
    for(size_t i = 0; i < buf.size(); ++i) buf[i] = around[i % around.size()];
    std::vector<unsigned char> mem(sizeof(Run) + 64, 0xee);
    differ(a, placed(g, buf, off, f1, mem), "the result depends on where the arguments or the objects lie");
    differ(b, placed(h, buf, off, f2, mem), "the result depends on what the same memory held before");
    differ(a, placed(g, buf, off, f1, mem), "the result depends on what the same memory held before");
    differ(b, placed(h, buf, off ^ 1, f1, mem), "the result depends on where the arguments lie");
}

//----------------------------------------------------------
// A process that has done a great deal, and one that has done nothing

struct Wire
{
    string b; size_t at = 0; bool ok = true;
    void num(uint64_t x) { b.append(reinterpret_cast<char const*>(&x), sizeof x); }
    void text(string const& s) { num(s.size()); b += s; }
    uint64_t num() { uint64_t x = 0; if(b.size() - at < sizeof x) { ok = false; return 0; } std::memcpy(&x, b.data() + at, sizeof x); at += sizeof x; return x; }
    string text() { size_t n = num(); if(! ok || n > b.size() - at) { ok = false; return {}; } string s(b, at, n); at += n; return s; }
};

static string pack(Prog const& g)
{
    Wire w;
    w.text(g.init);
    w.num(g.ops.size()); for(auto& o : g.ops) { w.num(o.k); w.text(o.s); w.num(o.n); w.num(o.i); w.num(o.j); }
    w.num(g.keys.size()); for(auto& k : g.keys) w.text(k);
    w.num(g.schemes.size()); for(auto& k : g.schemes) w.text(k);
    w.num(g.codes.size()); for(int k : g.codes) w.num(uint64_t(k));
    return w.b;
}

static Prog unpack(string const& b)
{
    Wire w; w.b = b;
    Prog g;
    g.init = w.text();
    for(size_t n = w.num(); w.ok && n; --n) { Op o; o.k = static_cast<Kind>(w.num()); o.s = w.text(); o.n = unsigned(w.num()); o.i = w.num(); o.j = w.num(); g.ops.push_back(o); }
    for(size_t n = w.num(); w.ok && n; --n) g.keys.push_back(w.text());
    for(size_t n = w.num(); w.ok && n; --n) g.schemes.push_back(w.text());
    for(size_t n = w.num(); w.ok && n; --n) g.codes.push_back(int(w.num()));
    return g;
}

static bool put_all(int fd, void const* p, size_t n)
{
    auto q = static_cast<char const*>(p);
    while(n)
    {
        ssize_t k = write(fd, q, n);
        if(k < 0 && errno == EINTR) continue;
        if(k <= 0) return false;
        q += k; n -= size_t(k);
    }
    return true;
}

static bool get_all(int fd, void* p, size_t n)
{
    auto q = static_cast<char*>(p);
    while(n)
    {
        ssize_t k = read(fd, q, n);
        if(k < 0 && errno == EINTR) continue;
        if(k <= 0) return false;
        q += k; n -= size_t(k);
    }
    return true;
}

static bool put_msg(int fd, string const& s) { uint64_t n = s.size(); return put_all(fd, &n, sizeof n) && put_all(fd, s.data(), s.size()); }
static bool get_msg(int fd, string& s)
{
    uint64_t n = 0;
    if(! get_all(fd, &n, sizeof n) || n > (1u << 30)) return false;
    s.resize(n);
    return get_all(fd, &s[0], n);
}

static int to_z = -1, from_z = -1;
static bool no_zygote = std::getenv("VERIF_FIRST_USE") != nullptr;

// The zygote never uses the library: it forks one process for every program it is
// sent, and answers with what came of that process and the transcript.
[[noreturn]] static void zygote_main(int in, int out)
{
    signal(SIGALRM, SIG_DFL); alarm(0);
    signal(SIGPIPE, SIG_IGN);
    int z = open("/dev/null", O_RDWR); dup2(z, 0); dup2(z, 1); dup2(z, 2);
    for(int k = 3; k < 256; ++k) if(k != in && k != out) close(k);
    string b;
    while(get_msg(in, b))
    {
        int pp[2];
        if(pipe(pp) != 0) _exit(0);
        pid_t const p = fork();
        if(p == 0)
        {
            close(pp[0]); close(in); close(out);
            alarm(60);
            put_msg(pp[1], transcript(unpack(b)));
            _exit(0);
        }
        close(pp[1]);
        string t;
        bool const got = p > 0 && get_msg(pp[0], t);
        close(pp[0]);
        int st = 0;
        if(p > 0) while(waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        uint64_t head[3] = {uint64_t(p > 0), uint64_t(got), uint64_t(uint32_t(st))};
        if(! put_all(out, head, sizeof head) || ! put_msg(out, t)) _exit(0);
    }
    _exit(0);
}

static void zygote()
{
    if(no_zygote) return;
    no_zygote = true;
    int a[2], b[2];
    if(pipe2(a, O_CLOEXEC) != 0) return;
    if(pipe2(b, O_CLOEXEC) != 0) { close(a[0]); close(a[1]); return; }
    std::fflush(nullptr);
    pid_t const p = fork();
    if(p == 0) zygote_main(a[0], b[1]);
    close(a[0]); close(b[1]);
    if(p < 0) { close(a[1]); close(b[0]); return; }
    to_z = a[1]; from_z = b[0];
}

// Many times everything, the same each time the check runs
#if defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define VERIF_AGES 6000
# endif
#endif
#if defined(__SANITIZE_ADDRESS__) && ! defined(VERIF_AGES)
# define VERIF_AGES 6000
#endif
#ifndef VERIF_AGES
# define VERIF_AGES 70000
#endif

static void age()
{
    static bool done = false;
    if(done) return;
    done = true;
    static char const* const bad[] = {"a ", "http://[::1", "%4", "1:", "http://h:x/", "?%zz", "//a%", "#\x7f", "x:\n"};
    static char const* const good[] = {"http://u:p@h.example:80/a/b%20c?k=v&a#f", "/abc", "//[::1]/", "x:a", "", "?k&k=1", "//1.2.3.4", "https://h", "file:///x"};
    urls::url keep("x:y");
    for(int i = 0; i < VERIF_AGES; ++i)
    {
        char const* b = bad[i % 9]; char const* g = good[i % 9];
        try { urls::url_view v(b); fail(string(b) + " was accepted after " + std::to_string(i) + " others"); } catch(urls::invalid_part const&) {}
        if(i % 4 == 0) try { urls::url u(b); fail(string(b) + " was accepted after " + std::to_string(i) + " others"); } catch(urls::invalid_part const&) {}
        urls::url_view const v(g);
        urls::url u(g);
        u.set_encoded_path("/p%20q"); u.set_user("u"); u.set_host("h"); u.set_port("1"); u.set_query("k=v"); u.set_fragment("f"); u.set_scheme("ws");
        if(i % 4 == 0)
        {
            // the steps may be refused; what counts is that they were taken
            try { u.set_encoded_path("%4"); } catch(std::exception const&) {}
            try { u.set_encoded_host("["); } catch(std::exception const&) {}
            try { u.set_scheme("1"); } catch(std::exception const&) {}
            try { u.set_port("x"); } catch(std::exception const&) {}
            try { keep.set_encoded_query("k=" + std::to_string(i)); } catch(std::exception const&) {}
            u.normalize_scheme();
            urls::url w(u); w = keep;
        }
        unsigned n = 0;
        for(auto x : u.segments()) n += unsigned(x.string().size());
        for(auto x : u.params()) n += unsigned(x.key().size());
        if(u.params().contains("k")) n += unsigned(u.params()["k"].size());
        n += unsigned(urls::string_to_scheme(i % 2 ? "https" : "x"));
        n += unsigned(u.encoded_origin().size() + v.host().size()+ u.port().size());
        static volatile unsigned sink; sink = n;
    }
}

static void r_fresh(Src& r, Ctx& c)
{
    Prog g = program(r, c, 6);
    if(r.draw(8) == 7)
    {
        g.init += " ";
        drop_erasures(g);
    }
    show(c, g, "in a fresh process, then in one that has done much");
    if(to_z < 0) { LABEL(c, "no process (skipped)"); return; }
    uint64_t head[3]; string t;
    if(! put_msg(to_z, pack(g)) || ! get_all(from_z, head, sizeof head) || ! get_msg(from_z, t))
    {
        close(to_z); close(from_z); to_z = from_z = -1;
        LABEL(c, "no process (skipped)"); return;
    }
    if(! head[0]) { LABEL(c, "no process (skipped)"); return; }
    int const st = int(head[2]);
    if(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { LABEL(c, "process killed from outside (skipped)"); return; }
    age();
    string const a = transcript(g);
    if(! head[1]) fail("the program fails in a fresh process, status " + std::to_string(st));
    differ(t, a, "a program gives another result in a process that has done much than in a fresh one");
}

//----------------------------------------------------------
// Circumstances of a call that are no business of the library

static string deep(Prog const& g, int n)
{
    volatile char pad[2048];
    pad[0] = char(n); pad[2047] = 0;
    string s = n > 0 ? deep(g, n - 1) : transcript(g);
    pad[1] = pad[0];
    return s;
}

struct Unwind
{
    Prog const& g; string& out;
    // nothing escapes: transcript() handles what it documents, and the rest is fatal anyway
    ~Unwind() { out = transcript(g); }
};

struct Thr { Prog const* g; string t; };
static void* thr(void* p) { auto& x = *static_cast<Thr*>(p); x.t = transcript(*x.g); return nullptr; }

static void r_circumstances(Src& r, Ctx& c)
{
    Prog g = program(r, c, 5);
    static char const* const names[] = {"while the stack is unwound", "in a handler", "in a handler within a handler", "with errno set", "with another rounding mode",
        "deep in the stack", "in a new thread with a small stack", "with signals blocked", "with a failing new handler and another terminate handler", "with another environment and umask", "with empty arguments that point nowhere"};
    uint32_t const k = r.draw(11);
    c.add(k);
    if(k == 10)
    {
        // more of them
        if(r.draw(3) == 0) g.init.clear();
        for(auto& o : g.ops) if(r.draw(3) == 0) o.s.clear();
        if(r.draw(2)) g.keys.push_back("");
        if(r.draw(2)) g.schemes.push_back("");
        drop_erasures(g);
    }
    show(c, g, names[k]); LABEL(c, names[k]);
    string const a = transcript(g);
    string b;
    switch(k)
    {
    case 0: try { Unwind u{g, b}; throw 1; } catch(int) {} break;
    case 1: try { throw std::bad_alloc(); } catch(std::exception const&) { b = transcript(g); } break;
    case 2: try { throw std::out_of_range("x"); } catch(std::exception const&) { try { throw std::invalid_argument("y"); } catch(std::exception const&) { b = transcript(g); } } break;
    case 3: errno = r.draw(2) ? ERANGE : int(1 + r.draw(130)); b = transcript(g); errno = 0; break;
    case 4: { static int const m[] = {FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}; std::fesetround(m[r.draw(3)]); b = transcript(g); std::fesetround(FE_TONEAREST); break; }
    case 5: b = deep(g, int(1 + r.draw(200))); break;
    case 6:
    {
        Thr x{&g, {}};
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 512 << 10);
        pthread_t t;
        bool const ok = pthread_create(&t, &at, thr, &x) == 0;
        if(ok) pthread_join(t, nullptr);
        pthread_attr_destroy(&at);
        if(! ok) { LABEL(c, "no thread (skipped)"); return; }
        b = x.t;
        break;
    }
    case 7: { sigset_t s, o; sigfillset(&s); sigdelset(&s, SIGALRM); sigprocmask(SIG_SETMASK, &s, &o); b = transcript(g); sigprocmask(SIG_SETMASK, &o, nullptr); break; }
    case 8:
    {
        auto nh = std::set_new_handler([]{ throw std::bad_alloc(); });
        auto th = std::set_terminate([]{ std::abort(); });
        b = transcript(g);
        std::set_new_handler(nh); std::set_terminate(th);
        break;
    }
    case 10:
    {
        struct Nowhere { Nowhere() { lib::Arg::nowhere() = true; } ~Nowhere() { lib::Arg::nowhere() = false; } } n;
        b = transcript(g);
        break;
    }
    default:
    {
        char** const old = environ;
        char e1[] = "LANG=tr_TR", e2[] = "LC_ALL=de_DE.UTF-8", e3[] = "POSIXLY_CORRECT=1", e4[] = "DEBUG=1", e5[] = "TZ=x";
        char* none[] = {nullptr}; char* some[] = {e1, e2, e3, e4, e5, nullptr};
        environ = r.draw(2) ? none : some;
        auto const um = umask(0777);
        b = transcript(g);
        umask(um); environ = old;
    }
    }
    differ(a, b, string("another result ") + names[k]);
}

//----------------------------------------------------------
// Locales

struct Punct : std::numpunct<char>
{
    char do_thousands_sep() const override { return '.'; }
    char do_decimal_point() const override { return ','; }
    string do_grouping() const override { return "\1"; }
    string do_truename() const override { return "ja"; }
    string do_falsename() const override { return "nein"; }
};

struct Type : std::ctype<char>
{
    static mask const* table()
    {
        static mask t[table_size];
        std::memcpy(t, classic_table(), sizeof t);
        for(int i = 128; i < 256; ++i) t[i] = alpha | lower | print;
        t[int('-')] = alpha; t[int('%')] = digit | xdigit; t[int(':')] = space; t[int('b')] = punct;
        return t;
    }
    Type() : std::ctype<char>(table()) {}
    char do_tolower(char c) const override { return c == 'I' ? '\xfd' : c == '\xdd' ? 'i' : std::ctype<char>::do_tolower(c); }
    char do_toupper(char c) const override { return c == 'i' ? '\xdd' : c == '\xfd' ? 'I' : c == 'f' ? '0' : std::ctype<char>::do_toupper(c); }
};

static char const* const kLocales[] = {"tr_TR.ISO-8859-9", "de_DE.ISO-8859-1", "ru_RU.KOI8-R", "hi_IN.UTF-8"};

struct InLocale
{
    std::locale old;
    explicit InLocale(uint32_t k) : old(std::locale())
    {
        if(k == 4) { std::locale::global(std::locale(std::locale(std::locale::classic(), new Punct), new Type)); return; }
        std::setlocale(LC_ALL, kLocales[k]);
    }
    ~InLocale() { std::locale::global(std::locale::classic()); std::setlocale(LC_ALL, "C"); }
};

static bool have(uint32_t k)
{
    static int h[5] = {-1, -1, -1, -1, 1};
    if(h[k] < 0) { h[k] = std::setlocale(LC_ALL, kLocales[k]) != nullptr; std::setlocale(LC_ALL, "C"); }
    return h[k] == 1;
}

static void r_locale(Src& r, Ctx& c)
{
    std::setlocale(LC_ALL, "C");
    uint32_t k = r.draw(5);
    Prog g = program(r, c, 5);
    c.add(k);
    show(c, g, "C locale, then another");
    if(! have(k)) { LABEL(c, "locale not available"); return; }
    if(k == 4) LABEL(c, "global std::locale with other facets"); else LABEL(c, "setlocale");
    string const a = transcript(g);
    string b;
    { InLocale l(k); b = transcript(g); }
    differ(a, b, string("another result in locale ") + (k == 4 ? "(custom facets)" : kLocales[k]));
}

//----------------------------------------------------------
// Threads

struct Worker
{
    std::vector<Prog> const* progs;
    std::vector<string>* out;
    urls::url const* u;
    urls::url_view const* v;
    std::vector<string> const* ks;
    string ou, ov;
    size_t first = 0;
    std::atomic<int>* gate = nullptr;
    void go()
    {
        if(gate) { gate->fetch_sub(1); while(gate->load(std::memory_order_relaxed) > 0) std::this_thread::yield(); }
        size_t const n = progs->size();
        for(size_t i = 0; i < n; ++i)
        {
            size_t k = (first + i) % n;
            (*out)[k] = transcript((*progs)[k]);
            ou = look(*u) + keys(*u, *ks);
            ov = look(*v) + keys(*v, *ks);
        }
    }
};

static void r_threads(Src& r, Ctx& c)
{
    size_t const T = 2 + r.draw(3), n = 1 + r.draw(2);
    std::vector<Prog> progs;
    for(size_t i = 0; i < n; ++i) { progs.push_back(program(r, c, 5)); show(c, progs.back(), "every thread"); }
    Parts p = gen::parts(r);
    string const text = p.text();
    TRACE(c, T << " threads; shared const url and url_view: " << quote(text));
    std::vector<string> ks{"k", "a", ""};
    urls::url u; Arg a(text);
    try { u.set_encoded_url(a); } catch(urls::invalid_part const&) { return; }
    urls::url const& cu = u;
    std::unique_ptr<urls::url_view> v;
    try { v.reset(new urls::url_view{sv(a)}); } catch(urls::invalid_part const&) { return; }
    // what one thread alone gets, afterwards: the threads come first so that
    // anything initialised on first use is initialised by them
    std::vector<std::vector<string>> out(T, std::vector<string>(n));
    std::vector<Worker> w(T);
    std::atomic<int> gate(static_cast<int>(T));
    for(size_t i = 0; i < T; ++i)
    {
        w[i].progs = &progs; w[i].out = &out[i]; w[i].u = &cu; w[i].v = v.get(); w[i].ks = &ks; w[i].first = i; w[i].gate = &gate;
    }
    std::vector<std::thread> th;
    for(auto& x : w) th.emplace_back([&x]{ x.go(); });
    for(auto& x : th) x.join();
    std::vector<string> one(n);
    Worker s; s.progs = &progs; s.out = &one; s.u = &cu; s.v = v.get(); s.ks = &ks;
    s.go();
    for(size_t i = 0; i < T; ++i)
    {
        for(size_t k = 0; k < n; ++k) differ(one[k], out[i][k], "a thread gets another result than one thread alone");
        differ(s.ou, w[i].ou, "a thread sees a shared const url differently");
        differ(s.ov, w[i].ov, "a thread sees a shared const url_view differently");
    }
}

//----------------------------------------------------------
// First use: threads that are the first in their process to use the library

static std::vector<Prog> first_programs(uint64_t i, Ctx& c)
{
    Src r; r.seed(eng::mix(i * 2 + 1));
    std::vector<Prog> v;
    for(size_t k = 0; k < 4; ++k)
    {
        Prog g = program(r, c, 5);
        if(k == 0) { g.schemes = {"https", "x"}; g.codes = {1, 5}; g.keys.push_back("k"); }
        v.push_back(g);
    }
    return v;
}

// in a process of its own, before main
static int first_use(uint64_t i)
{
    Ctx c;
    auto const progs = first_programs(i, c);
    size_t const T = 2 + i % 3, n = progs.size();
    std::vector<std::vector<string>> out(T, std::vector<string>(n));
    std::atomic<int> gate(static_cast<int>(T));
    auto go = [&](size_t t) {
        // no call of the library and no lock before all are there
        gate.fetch_sub(1, std::memory_order_relaxed);
        while(gate.load(std::memory_order_relaxed) > 0) {}
        for(size_t k = 0; k < n; ++k) out[t][k] = transcript(progs[k]);
    };
    if(write(7, "s", 1) != 1) return 0;         // the process did start
    std::vector<std::thread> th;
    for(size_t t = 0; t < T; ++t) th.emplace_back(go, t);
    for(auto& x : th) x.join();
    for(size_t k = 0; k < n; ++k)
    {
        string const one = transcript(progs[k]);
        for(size_t t = 0; t < T; ++t) if(out[t][k] != one) return 9;
    }
    return 0;
}

static struct First
{
    First() { if(char const* e = std::getenv("VERIF_FIRST_USE")) { alarm(60); _exit(first_use(std::strtoull(e, nullptr, 10))); } }
} const first_;

static void e_first(uint64_t i, Ctx& c)
{
    for(auto& g : first_programs(i, c)) show(c, g, "every thread, first in its process");
    c.nontrivial();
    string const var = "VERIF_FIRST_USE=" + std::to_string(i);
    std::vector<char*> env{const_cast<char*>(var.c_str())};
    for(char** e = environ; *e; ++e) env.push_back(*e);
    env.push_back(nullptr);
    std::fflush(nullptr);
    int pp[2];
    if(pipe(pp) != 0) { LABEL(c, "no process (skipped)"); return; }
    pid_t const p = fork();
    if(p == 0)
    {
        dup2(pp[1], 7);
        for(int k = 8; k < 64; ++k) close(k);
        int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2);
        char name[] = "first"; char* av[] = {name, nullptr};
        execve("/proc/self/exe", av, env.data());
        _exit(0);
    }
    close(pp[1]);
    if(p < 0) { close(pp[0]); LABEL(c, "no process (skipped)"); return; }
    int st = 0;
    while(waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    char ch = 0;
    bool const started = read(pp[0], &ch, 1) == 1;
    close(pp[0]);
    // without it nothing of the library ran: the sanitizer's own start failed
    if(! started) { LABEL(c, "process did not start (skipped)"); return; }
    if(WIFEXITED(st) && WEXITSTATUS(st) == 9) fail("a thread that uses the library first gets another result than one thread alone");
    if(WIFEXITED(st) && WEXITSTATUS(st) == 66) fail("data race between threads that use the library first");
    if(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { LABEL(c, "process killed from outside (skipped)"); return; }
    if(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) fail("threads that use the library first do not come to an end");
    if(WIFSIGNALED(st)) fail("threads that use the library first crash: signal " + std::to_string(WTERMSIG(st)));
    if(! WIFEXITED(st) || WEXITSTATUS(st) != 0) fail("threads that use the library first fail, status " + std::to_string(st));
}

#if defined(__has_feature)
# if __has_feature(thread_sanitizer)
#  define VERIF_TSAN 1
# endif
#endif
#ifdef VERIF_TSAN
# define ONLY_THREADS(n) 0
#else
# define ONLY_THREADS(n) n
#endif

eng::Check const& eng::get_check()
{
    static Check const c{"C23",
        "Programs (a URL, a history of all kinds of calls, lookups, scheme and error queries, all observers after every step) are generated without "
        "the library and run twice: before and after other programs; alone and interleaved step by step with others, and with another in the middle of its calls, whenever the allocator is used; with all arguments in one reused buffer (any alignment, other bytes around it, other contents of the same size before it) and the objects in used memory; in the C locale and in "
        "Turkish, German, Russian and Hindi ones and a std::locale with hostile facets; in one thread and in several at once that also share a const url and url_view "
        "(under ThreadSanitizer too); in threads that are the first in their process to use the library; while the stack is unwound, in handlers, with errno, rounding mode, signal mask, environment changed, with empty arguments that are string_view{}, deep in the stack and in a small one; in a process that does nothing else and in one that has made tens of thousands of calls of every kind, refused ones too. The transcripts must be equal. Non-trivial: a program has a URL or a call.",
        {
            {"fresh process", r_fresh, ONLY_THREADS(6000), ONLY_THREADS(150000)},
            {"again after others", r_again, ONLY_THREADS(40000), ONLY_THREADS(1000000)},
            {"interleaved", r_interleave, ONLY_THREADS(30000), ONLY_THREADS(800000)},
            {"within calls", r_within, ONLY_THREADS(40000), ONLY_THREADS(1000000)},
            {"other places", r_place, ONLY_THREADS(60000), ONLY_THREADS(1500000)},
            {"circumstances", r_circumstances, ONLY_THREADS(40000), ONLY_THREADS(1000000)},
            {"locales", r_locale, ONLY_THREADS(60000), ONLY_THREADS(1500000)},
            {"threads", r_threads, 6000, 150000},
        },
        {{"first use", e_first, 60, 0}}};
    return c;
}
