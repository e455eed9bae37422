// C21: every way of building the library behaves the same
#include "check.hpp"
#include <dlfcn.h>
#include <fstream>
using namespace ref;

struct Cfg
{
    string name;
    void* (*open)(); void (*close)(void*);
    char const* (*text)(void*, size_t*);
    char const* (*step)(void*, int, char const*, size_t, unsigned, size_t, size_t, size_t*);
    char const* (*parse)(void*, char const*, size_t, char const*, size_t, size_t*);
    char const* (*errors)(void*, size_t*);
};

static std::vector<Cfg> const& cfgs()
{
    static std::vector<Cfg> v;
    if(! v.empty()) return v;
    char exe[4096]; auto n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    string dir(exe, n > 0 ? n : 0); dir.resize(dir.rfind('/'));
    std::ifstream f(dir + "/configs.txt"); string line;
    for(int i = 0; std::getline(f, line); ++i)
    {
        string so = dir + "/cfg" + std::to_string(i) + ".so";
        void* h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
        if(! h) { std::fprintf(stderr, "%s\n", dlerror()); std::_Exit(3); }
        Cfg c; c.name = line;
        auto get = [&](auto& fn, char const* s) { fn = reinterpret_cast<std::decay_t<decltype(fn)>>(dlsym(h, s)); if(! fn) { std::fprintf(stderr, "%s\n", s); std::_Exit(3); } };
        get(c.open, "cfg_open"); get(c.close, "cfg_close"); get(c.text, "cfg_text"); get(c.step, "cfg_step"); get(c.parse, "cfg_parse"); get(c.errors, "cfg_errors");
        v.push_back(c);
    }
    if(v.size() < 2) { std::fprintf(stderr, "no configurations in %s\n", dir.c_str()); std::_Exit(3); }
    return v;
}

static void differ(string const& a, string const& b, Cfg const& x, Cfg const& y, string const& what)
{
    if(a == b) return;
    size_t i = 0, k = 0;
    while(i < a.size() && i < b.size() && a[i] == b[i]) { if(a[i] == '\n') k = i + 1; ++i; }
    auto line = [&](string const& s) { return quote(s.substr(k, 200)); };
    fail(what + ": [" + x.name + "] gives " + line(a) + ", [" + y.name + "] gives " + line(b));
}

struct Sessions
{
    std::vector<void*> s;
    Sessions() { for(auto& c : cfgs()) s.push_back(c.open()); }
    ~Sessions() { for(size_t i = 0; i < s.size(); ++i) cfgs()[i].close(s[i]); }
};

static void step(Sessions& z, Op const& o, string const& what)
{
    Arg a(o.s);
    string first;
    for(size_t i = 0; i < z.s.size(); ++i)
    {
        size_t n;
        char const* p = cfgs()[i].step(z.s[i], o.k, a.data(), a.size(), o.n, o.i, o.j, &n);
        if(i == 0) first.assign(p, n);
        else differ(first, string(p, n), cfgs()[0], cfgs()[i], what);
    }
}

static bool state(Sessions& z, Parts& p)
{
    size_t n; char const* t = cfgs()[0].text(z.s[0], &n);
    return ref::parse(n ? string(t, n) : string(), p);
}

static void history(Src& r, Ctx& c, size_t n)
{
    Sessions z; Parts p;
    string log;
    size_t changed = 0;
    for(size_t i = 0; i < n; ++i)
    {
        if(! state(z, p)) return;       // C06
        Op o = i == 0 && r.draw(3) ? Op() : gen::op(r, p);
        if(i == 0 && o.k == SET_URL && o.s.empty()) o.s = gen::parts(r).text();
        TRACE(c, gen::show(o)); c.add(o.s); c.add(o.k); c.add(o.i * 64 + o.j);
        chk::op_label(c, o.k);
        string const before = p.text();
        step(z, o, gen::show(o) + " on " + quote(before));
        Parts q; if(! state(z, q)) return;
        changed += q.text() != before;
    }
    if(changed >= 2) c.nontrivial();
    chk::shape_labels(c, p);
}
static void r_hist(Src& r, Ctx& c) { history(r, c, 2 + r.draw(8)); }

static void parse(string const& t, string const& key)
{
    Sessions z;
    Arg a(t), k(key);
    string first;
    for(size_t i = 0; i < z.s.size(); ++i)
    {
        size_t n;
        char const* p = cfgs()[i].parse(z.s[i], a.data(), a.size(), k.data(), k.size(), &n);
        if(i == 0) first.assign(p, n);
        else differ(first, string(p, n), cfgs()[0], cfgs()[i], "parsing " + quote(t) + ", key " + quote(key));
    }
}

static void r_parse(Src& r, Ctx& c)
{
    string t = gen::any_url(r), key = r.draw(2) ? gen::bytes(r) : string();
    Parts p;
    if(ref::parse(t, p)) { c.nontrivial(); auto v = p.params(); if(! v.empty() && r.draw(2)) key = decode(v[r.draw(uint32_t(v.size()))].first); }
    TRACE(c, quote(t) << " key " << quote(key)); c.add(t); c.add(key);
    parse(t, key);
}

static void e_byte(uint64_t i, Ctx& c)
{
    static char const* const pos[][2] = { {"", ""}, {"a", ":"}, {"//", ""}, {"//u", "@h"}, {"//u:p", "@h"}, {"//h:1", ""}, {"//[::", "]"}, {"//[v1.", "]"}, {"/", ""}, {"a", "b"}, {"s:", ""}, {"?", ""}, {"?a=", ""}, {"#", ""}, {"%", "1"}, {"?%4", "=x"} };
    string t = string(pos[i / 256][0]) + char(i % 256) + pos[i / 256][1];
    TRACE(c, quote(t)); if(ref::valid(t)) c.nontrivial();
    parse(t, string(1, char(i % 256)));
}

static string const kAl("a1:/?#@[]%.=&", 13);
static void e_short(uint64_t i, Ctx& c) { string t = chk::nth_string(i, kAl); TRACE(c, quote(t)); if(ref::valid(t)) c.nontrivial(); parse(t, "a"); }

// every operation with every byte as its argument
static void e_op(uint64_t i, Ctx& c)
{
    static char const* const st[] = {"", "s://u:p@h:1/a/b?k=v#f", "/a/b", "//h"};
    Op o; o.k = Kind(i % N_KINDS); i /= N_KINDS; 
    string base = st[i % 4]; i /= 4;
    o.s = i < 256 ? string(1, char(i)) : string();
    Parts p; ref::parse(base, p);
    size_t n = p.segments().size();
    if(n == 0 && (o.k == SEG_REPLACE || o.k == SEG_REPLACE_ENC || o.k == SEG_ERASE)) return;
    if(o.k == SEG_ERASE_RANGE) o.j = n;
    o.n = unsigned(i) * 257;
    Sessions z;
    Op b; b.k = SET_URL; b.s = base;
    step(z, b, "set_encoded_url");
    TRACE(c, quote(base) << " " << gen::show(o));
    step(z, o, gen::show(o) + " on " + quote(base));
    c.nontrivial();
}

static void e_errors(uint64_t, Ctx& c)
{
    Sessions z;
    string first;
    for(size_t i = 0; i < z.s.size(); ++i)
    {
        size_t n; char const* p = cfgs()[i].errors(z.s[i], &n);
        if(i == 0) first.assign(p, n); else differ(first, string(p, n), cfgs()[0], cfgs()[i], "error codes");
    }
    TRACE(c, first);
    c.nontrivial();
}

eng::Check const& eng::get_check()
{
    (void)cfgs();       // loaded before the workers fork
    static Check const k{"C21",
        "Six builds of the library (gcc and clang; -O0 to -O3; assertions on and off; compiled, header-only with two translation units, standalone with std::string_view) are loaded side by side and given the same inputs: "
        "strings to parse and keys to look up (random, near-valid, every byte in 16 positions, all strings of up to 3 of 13 characters), modification histories of up to 9 calls, every operation with every one-byte "
        "argument, the error codes. Complete transcripts (outcome, exception type and text, all 31 observers, capacity, returned iterators, copies and moves) must be identical. Non-trivial: the string is valid, or two "
        "modifications took effect; distinct by input.",
        {{"histories", r_hist, 60000, 2500000}, {"parsing", r_parse, 60000, 2500000}},
        {{"bytes", e_byte, 16 * 256, 0}, {"short strings", e_short, chk::count_strings(13, 4), 4000}, {"one-byte arguments", e_op, uint64_t(N_KINDS) * 4 * 257, 0}, {"errors", e_errors, 1, 0}}};
    return k;
}
