// C15: no input makes the library read or write out of bounds or fail
#ifdef VERIF_VALGRIND
#include <valgrind/memcheck.h>
#endif
#include "check.hpp"
#include "big.hpp"
using namespace ref;

// under valgrind: any report since the case began is a failure
struct Watch
{
#ifdef VERIF_VALGRIND
    unsigned n;
    Watch() { n = VALGRIND_COUNT_ERRORS; }
    void ok(string const& what) { if(VALGRIND_COUNT_ERRORS != n) { n = VALGRIND_COUNT_ERRORS; fail(what + ": memcheck reports an invalid access or a decision on uninitialised bytes"); } }
#else
    void ok(string const&) {}
#endif
};

// memory runs out while a noexcept function is at work
static bool g_out_of_memory = false;
#ifndef VERIF_VALGRIND      // which replaces these itself
void* operator new(size_t n) { void* p = g_out_of_memory ? nullptr : std::malloc(n ? n : 1); if(! p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
#endif
struct OutOfMemory { OutOfMemory() { g_out_of_memory = true; } ~OutOfMemory() { g_out_of_memory = false; } };

// Reads everything a result refers to.
static void consume(string const& s)
{
    unsigned volatile h = 0;
    for(unsigned char c : s) h = h * 31 + c;
#ifdef VERIF_VALGRIND
    if(VALGRIND_CHECK_MEM_IS_DEFINED(s.data(), s.size())) fail("a result contains uninitialised bytes");
#endif
}

template<class U> static string digest(U const& u)
{
    Obs o; lib::observe(u, o);
    string r;
    for(int f = 0; f < lib::F_COUNT; ++f) { consume(o[f]); r += lib::fname(f); r += '='; r += o[f]; r += '\n'; }
    return r;
}

template<class U> static string lists(U& u)
{
    Obs o; lib::observe(u, o, lib::M_LISTS);
    return o[lib::F_SEGS] + o[lib::F_PARAMS];
}

template<class L> static void lookups(L const& l, sv k)
{
    (void)l.contains(k); (void)l.count(k); (void)(l.find(k) == l.end());
    consume(l[k]);
    try { consume(l.at(k)); } catch(urls::out_of_range const&) {}
}

template<class L> static void back(L const& l)
{
    auto it = l.end(); auto const b = l.begin();
    size_t n = 0, lim = l.size() + 3;
    while(it != b) { --it; if(++n > lim) fail("backward iteration does not end"); }
}

static void touch(string const& t, string const& key)
{
    Arg a(t), k(key);
    try { urls::url_view v(a); digest(v); lookups(v.params(), k); back(v.segments()); back(v.params()); } catch(urls::invalid_part const&) {}
    try
    {
        urls::url u{a.view()};
        digest(static_cast<urls::url const&>(u)); lists(u); lookups(u.params(), k); lookups(static_cast<urls::url const&>(u).params(), k);
        back(u.segments()); back(u.params()); back(static_cast<urls::url const&>(u).segments());
    }
    catch(urls::invalid_part const&) {}
    (void)urls::string_to_scheme(a); (void)urls::is_special(a);
}

static void r_parse(Src& r, Ctx& c)
{
    Watch w;
    string t = gen::any_url(r), key = gen::bytes(r);
    TRACE(c, quote(t)); c.add(t);
    if(ref::valid(t)) LABEL(c, "valid"); else LABEL(c, "invalid");
    if(t.size() > 2) c.nontrivial();
    touch(t, key);
    w.ok("parsing " + quote(t));
}

// cut anywhere: the parser must not look behind the end
static void r_cut(Src& r, Ctx& c)
{
    Watch w;
    string t = gen::parts(r).text();
    if(t.size() > 300) t.resize(300);
    TRACE(c, "all prefixes of " << quote(t)); c.add(t);
    if(t.size() > 4) c.nontrivial();
    for(size_t i = 0; i <= t.size(); ++i) { Arg a(t.substr(0, i)); try { urls::url_view v(a); S(v.encoded_url()); } catch(urls::invalid_part const&) {} }
    w.ok("parsing prefixes of " + quote(t));
}

struct InPages
{
    lib::Pages g;
    explicit InPages(bool nowhere) { lib::Pages::now() = &g; lib::Arg::nowhere() = nowhere; }
    ~InPages() { lib::Pages::now() = nullptr; lib::Arg::nowhere() = false; }
};

// any operation with any argument
static Op wild(Src& r, Parts const& p)
{
    Op o = gen::op(r, p);
    if(o.k == SEG_ERASE || o.k == SEG_ERASE_RANGE || o.k == NORMALIZE || o.k == NORMALIZE_SCHEME || o.k == SET_PORT_N) return o;
    switch(r.draw(4)) { case 0: o.s = gen::raw(r); break; case 1: o.s = gen::mutate(r, o.s); break; case 2: o.s = gen::any_url(r); break; default: break; }
    return o;
}

static void r_hist(Src& r, Ctx& c)
{
    Watch w;
    urls::url u; Parts p;
    if(! chk::state(r, c, u, p)) return;
    size_t n = 1 + r.draw(8), done = 0;
    c.add(p.text());
    for(size_t i = 0; i < n; ++i)
    {
        Op o = wild(r, p);
        TRACE(c, gen::show(o)); c.add(o.s); c.add(o.k); c.add(o.i * 64 + o.j);
        chk::op_label(c, o.k);
        done += lib::try_call(u, o) == lib::O_OK;
        digest(static_cast<urls::url const&>(u)); lists(u); back(u.segments()); back(u.params());
        w.ok("after " + gen::show(o));
        if(! chk::sync(u, p)) return;
    }
    if(done) c.nontrivial();
}

// arguments and texts of views where they cannot be written, with nothing readable behind them
static void r_pages(Src& r, Ctx& c)
{
    string const t = r.draw(3) ? gen::parts(r).text() : gen::any_url(r), key = gen::bytes(r);
    TRACE(c, "in a page that cannot be written: " << quote(t)); c.add(t);
    if(t.size() > 2) c.nontrivial();
    urls::url u; Parts p;
    if(ref::valid(t)) { try { u.set_encoded_url(t); } catch(urls::invalid_part const&) { return; } }
    if(! chk::sync(u, p)) return;
    auto const pk = p.params();
    string const k2 = pk.empty() ? string("k") : ref::decode(pk[r.draw(uint32_t(pk.size()))].first);
    InPages in(r.draw(2));      // an empty one may point nowhere
    touch(t, key);
    touch(t, k2);
    for(size_t i = 0, n = r.draw(4); i < n; ++i)
    {
        Op o = wild(r, p);
        TRACE(c, gen::show(o)); c.add(o.s); c.add(o.k); c.add(o.i * 64 + o.j);
        lib::try_call(u, o);
        Arg k(k2); lookups(u.params(), k);
        if(! chk::sync(u, p)) return;
    }
}

// the noexcept functions, when any allocation they might try fails: an exception would end the program
template<class U>
static size_t walk_none(U& u, sv key)
{
    size_t n = u.encoded_origin().size() + u.scheme().size() + u.encoded_authority().size() + u.encoded_userinfo().size() + u.userinfo_part().size() + u.encoded_user().size() + u.encoded_password().size()
        + u.encoded_host_and_port().size() + u.encoded_host().size() + u.port().size() + u.port_part().size() + u.encoded_path().size() + u.encoded_query().size() + u.query_part().size()
        + u.encoded_fragment().size() + u.fragment_part().size() + u.has_authority() + u.has_userinfo() + size_t(u.host_type()) + u.size();
    auto s = u.segments(); auto q = u.params();
    for(auto it = s.begin(), e = s.end(); it != e; ++it) n += (*it).encoded_string().size();
    for(auto it = s.end(), b = s.begin(); it != b;) n += (*--it).encoded_string().size();
    for(auto it = q.begin(), e = q.end(); it != e; ++it) n += (*it).encoded_key().size();
    for(auto it = q.end(), b = q.begin(); it != b;) n += (*--it).encoded_value().size();
    return n + s.size() + q.size() + s.empty() + q.empty() + q.contains(key) + q.count(key) + (q.find(key) == q.end());
}

static void r_none(Src& r, Ctx& c)
{
    Watch w;
    lib::Mem m;
    {
        lib::murl u{lib::Alloc<char>(m)}; Parts p;
        if(! chk::state(r, c, u, p)) return;
        c.add(p.text());
        if(p.text().size() > 2) c.nontrivial();
        auto ps = p.params();
        string key = ! ps.empty() && r.draw(2) ? decode(ps[r.draw(uint32_t(ps.size()))].first) : gen::bytes(r);
        string const t = p.text();
        Arg a(t), k(key);
        Op o = gen::op_of(r, p, r.draw(2) ? SEG_ERASE : SEG_ERASE_RANGE);
        bool const er = o.k == SEG_ERASE || o.k == SEG_ERASE_RANGE;
        TRACE(c, "out of memory in the noexcept functions of " << quote(t) << ", key " << quote(key) << (er ? ", " + gen::show(o) : string()));
        urls::url_view v(a);
        auto sg = u.segments(); auto first = sg.begin(), last = first;
        if(er) { for(size_t i = 0; i < o.i; ++i) ++first; last = first; for(size_t i = o.i; i < o.j; ++i) ++last; }
        m.fail_in = 0;
        size_t volatile n = 0;
        {
            OutOfMemory no;
            n = n + walk_none(v, k) + walk_none(u, k) + walk_none(static_cast<lib::murl const&>(u), k);
            n = n + size_t(urls::string_to_scheme(a)) + urls::is_special(a) + urls::to_string(urls::scheme::wss).size();
            urls::url e; n = n + e.size();
            if(er) { if(o.k == SEG_ERASE) sg.erase(first); else sg.erase(first, last); }
            u.normalize_scheme();
            lib::murl x(std::move(u));
            n = n + x.size() + u.size();
        }
        m.fail_in = -1;
    }
    if(! m.error.empty() || ! m.live.empty()) fail("allocator misused: " + m.error);
    w.ok("out of memory");
}

// the same history over memory that held other bytes, and with other bytes behind the arguments, gives the same results
class Tail
{
    string buf_; size_t n_;
public:
    Tail(string const& s, string const& tail) : buf_(s + tail), n_(s.size()) {}
    sv view() const { return sv(buf_.data(), n_); }
};

static void r_fill(Src& r, Ctx& c)
{
    static unsigned char const fills[] = {0x00, '/', '?', '%', ':', 0xff};
    static char const* const tails[] = {"", "/x", "?q", "%41", "1234", ":8@", "]", "==&"};
    unsigned f1 = r.draw(6), f2 = r.draw(6), t1 = r.draw(8), t2 = r.draw(8);
    lib::Mem m1, m2; m1.fill = fills[f1]; m2.fill = fills[f2];
    {
        lib::murl a{lib::Alloc<char>(m1)}, b{lib::Alloc<char>(m2)};
        Parts p = gen::parts(r);
        string const t = p.text();
        TRACE(c, "memory filled with " << int(fills[f1]) << " and " << int(fills[f2]) << ", arguments followed by " << quote(tails[t1]) << " and " << quote(tails[t2]));
        TRACE(c, "set_encoded_url(" << quote(t) << ")");
        c.add(t);
        {
            Tail x(t, tails[t1]), y(t, tails[t2]);
            bool ok1 = true, ok2 = true;
            try { a.set_encoded_url(x.view()); } catch(urls::invalid_part const&) { ok1 = false; }
            try { b.set_encoded_url(y.view()); } catch(urls::invalid_part const&) { ok2 = false; }
            if(ok1 != ok2) fail("set_encoded_url(" + quote(t) + ") depends on what follows the argument");
        }
        size_t n = 1 + r.draw(8);
        for(size_t i = 0; i < n; ++i)
        {
            if(! chk::sync(a, p)) return;
            Op o = wild(r, p);
            TRACE(c, gen::show(o)); c.add(o.s); c.add(o.k);
            size_t r1 = 0, r2 = 0;
            auto x = lib::try_call(a, o, &r1), y = lib::try_call(b, o, &r2);
            if(x != y || r1 != r2) fail(gen::show(o) + " depends on uninitialised memory: " + lib::oname(x) + " or " + lib::oname(y));
            string d1 = digest(static_cast<lib::murl const&>(a)), d2 = digest(static_cast<lib::murl const&>(b));
            if(d1 != d2 || lists(a) != lists(b)) fail("after " + gen::show(o) + " the observers depend on uninitialised memory");
        }
        c.nontrivial();
    }
    if(! m1.error.empty() || ! m1.live.empty()) fail("allocator misused: " + m1.error);
}

// arguments: the verdict and the result do not depend on the bytes behind the argument
static void r_tail(Src& r, Ctx& c)
{
    static char const* const tails[] = {"", "/x", "?q", "%41", "41", "1", "a", ":8@", "]", "==&", "::", ".1", "f]", "//"};
    string t = gen::any_url(r), key = gen::bytes(r);
    unsigned t1 = r.draw(14), t2 = r.draw(14);
    TRACE(c, quote(t) << " followed by " << quote(tails[t1]) << " and by " << quote(tails[t2])); c.add(t); c.add(t1 * 16 + t2);
    string d[2];
    for(int k = 0; k < 2; ++k)
    {
        Tail x(t, tails[k ? t2 : t1]), y(key, tails[k ? t2 : t1]);
        try { urls::url_view v(x.view()); d[k] = digest(v); d[k] += v.params().contains(y.view()) ? "contains" : "lacks"; d[k] += v.params()[y.view()]; } catch(urls::invalid_part const&) { d[k] = "refused"; }
        d[k] += std::to_string(int(urls::string_to_scheme(x.view())));
    }
    if(d[0] != d[1]) fail("parsing " + quote(t) + " depends on what follows the argument");
    if(t1 != t2 && t.size() > 1) c.nontrivial();
}

// long inputs: no stack exhaustion, no quadratic blow-up
static void r_big(Src& r, Ctx& c)
{
    static char const* const unit[] = {"a", "/", "a/", "%41", "k=v&", "&", "=", "@", ":", "1", ".", "//", "?", "#", "[", "x:"};
    static char const* const pre[] = {"", "s:", "//", "//h/", "/", "?", "#", "//u:", "//h:", "//[", "//[v1."};
    string t = pre[r.draw(11)];
    string u = unit[r.draw(16)]; if(r.draw(2)) u += unit[r.draw(16)];
    size_t n = 1000u << r.draw(9);      // to 256 KB
    n += r.draw(64);
    t += gen::repeat(u, n);
    if(r.draw(3) == 2) t += "@h"; else if(r.draw(3) == 2) t += "]"; else if(r.draw(3) == 2) t += " ";
    TRACE(c, quote(t)); c.add(t);
    c.nontrivial();
    double const t0 = eng::now();
    Arg a(t);
    try
    {
        urls::url_view v(a);
        consume(S(v.encoded_path())); consume(v.query());
        size_t k = 0; for(auto const& s : v.segments()) { (void)s.encoded_string(); ++k; }
        for(auto const& s : v.params()) { (void)s.encoded_key(); ++k; }
        (void)v.params().contains("k");
        urls::url x{a.view()};
        x.set_encoded_userinfo("u:p"); x.set_port("1"); x.set_scheme("q");
        if(x.segments().size()) x.segments().insert(x.segments().begin(), "z");
        x.set_encoded_query(""); x.set_encoded_url(a); x.set_encoded_fragment("f");
        LABEL(c, "valid");
    }
    catch(urls::invalid_part const&) {}
    double const dt = eng::now() - t0;
    if(dt > 20) fail("takes " + std::to_string(dt) + " s for " + std::to_string(t.size()) + " bytes");
}

// default-constructed lists and iterators
static void e_default(uint64_t, Ctx& c)
{
    urls::url_view::segments_type vs; urls::url_view::params_type vp; urls::url::segments_type us; urls::url::params_type up;
    if(! vs.empty() || ! vp.empty() || ! us.empty() || ! up.empty()) fail("a default-constructed list is not empty");
    if(vs.begin() != vs.end() || vp.begin() != vp.end() || us.begin() != us.end() || up.begin() != up.end()) fail("a default-constructed list has elements");
    urls::url u; digest(static_cast<urls::url const&>(u)); lists(u);
    lookups(u.params(), "k");
    urls::url_view v{sv()}; digest(v); lookups(v.params(), sv());
    u.set_encoded_url(sv()); u.set_host(sv()); u.set_port(sv()); u.set_encoded_path(sv()); u.set_query(sv()); u.set_fragment(sv()); u.set_scheme(sv()); u.set_user(sv()); u.set_password(sv()); u.set_encoded_authority(sv());
    if(u.size() != 0) fail("null arguments to an empty url add something");
    TRACE(c, "default-constructed lists, null arguments"); c.nontrivial();
}

static string const kAl("a1:/?#@[]%.=& ", 14);
static void e_short(uint64_t i, Ctx& c)
{
    Watch w;
    string t = chk::nth_string(i, kAl);
    TRACE(c, quote(t)); if(t.size() > 1) c.nontrivial();
    touch(t, "a"); touch("//" + t, "a");
    w.ok("parsing " + quote(t));
}

// every operation with every short argument on small states
static string const kArg("a1:/?#@[%. ", 11);
static void e_op(uint64_t i, Ctx& c)
{
    Watch w;
    static char const* const st[] = {"", "s://u:p@h:1/a/b?k=v#f", "/a/b", "//h", "a", "//@", "?", "s:"};
    Op o; o.k = Kind(i % N_KINDS); i /= N_KINDS;
    string base = st[i % 8]; i /= 8;
    o.s = chk::nth_string(i, kArg);
    Parts p; ref::parse(base, p);
    size_t n = p.segments().size();
    if(n == 0 && (o.k == SEG_REPLACE || o.k == SEG_REPLACE_ENC || o.k == SEG_ERASE)) return;
    if(o.k == SEG_ERASE_RANGE) o.j = n;
    if(o.k == SEG_ERASE) { Parts t = p; if(! ref::apply(t, o)) return; }
    o.n = unsigned(i * 2654435761u);
    urls::url u; u.set_encoded_url(base);
    TRACE(c, quote(base) << " " << gen::show(o));
    lib::try_call(u, o);
    digest(static_cast<urls::url const&>(u)); lists(u);
    u.set_encoded_url(base);
    w.ok(gen::show(o) + " on " + quote(base));
    c.nontrivial();
}

eng::Check const& eng::get_check()
{
    static Check const k{"C15",
        "Arbitrary, near-valid and valid strings in blocks of exactly their size (all strings of up to 4 of 14 characters, all prefixes of random URLs, inputs up to 512 KB), every operation with every argument of up to 3 of "
        "11 characters, histories of modifications with arbitrary arguments, followed by every observer, both iteration directions and lookups. Run under AddressSanitizer and UBSan with assertions, under valgrind memcheck "
        "(case by case, uninitialised bytes included), and in an optimised build. Arguments and the texts of views also lie in pages that cannot be written, before one that cannot be read. The noexcept functions are also called while every allocation fails. The same history over differently filled memory and with different bytes behind the arguments must give the same results. Non-trivial: more than two "
        "bytes of input, or a modification that succeeded; distinct by input.",
        {{"parsing", r_parse, 500000, 30000000}, {"prefixes", r_cut, 20000, 500000}, {"histories", r_hist, 200000, 10000000}, {"filled memory", r_fill, 100000, 4000000}, {"tails", r_tail, 300000, 10000000}, {"read-only text", r_pages, 60000, 2000000}, {"out of memory", r_none, 100000, 4000000}, {"long", r_big, 600, 20000}},
        {{"defaults", e_default, 1, 0}, {"short strings", e_short, chk::count_strings(14, 4), 0}, {"short arguments", e_op, uint64_t(N_KINDS) * 8 * chk::count_strings(11, 3), 0}, {"4 GiB view", big::e_some<0, 6>, big::some(2), 0}, {"4 GiB url", big::e_url, big::some(1), 0}}};
    return k;
}
