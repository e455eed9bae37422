// C06: a URL is valid and self-consistent after any modification history
#include "check.hpp"
#include "big.hpp"
using namespace ref;

// every observer against a fresh parse of the text
template<class U>
static void consistent(U& u, string const& what)
{
    string const t = S(u.encoded_url());
    Parts p;
    if(! ref::parse(t, p)) fail(what + ": the text becomes " + quote(t) + ", which is not a valid URI-reference");
    Obs got; lib::observe(static_cast<U const&>(u), got);
    Obs mut; lib::observe(u, mut, lib::M_LISTS);        // the modifiable segments() and params()
    Arg a(t);
    try
    {
        urls::url_view v(a);
        Obs w; lib::observe(v, w);
        chk::same(got, w, lib::M_ALL & ~lib::bit(lib::F_PW_PART), what + ": compared with url_view(" + quote(t) + ")");
        urls::url f{a.view()};
        Obs x; lib::observe(static_cast<urls::url const&>(f), x);
        chk::same(got, x, lib::M_ALL, what + ": compared with url(" + quote(t) + ")");
        Obs y; lib::observe(f, y, lib::M_LISTS);
        chk::same(mut, y, lib::M_LISTS, what + ": modifiable lists compared with url(" + quote(t) + ")");
    }
    catch(urls::invalid_part const&) { fail(what + ": the library refuses to parse the resulting text " + quote(t)); }
}

template<class U>
static void history(Src& r, Ctx& c, U& u, size_t n)
{
    Parts p;
    if(r.draw(4))
    {
        string s = gen::parts(r).text();
        Arg a(s);
        try { u.set_encoded_url(a); } catch(urls::invalid_part const&) { LABEL(c, "refused (C01)"); return; }
        TRACE(c, "set_encoded_url(" << quote(s) << ")");
        c.add(s);
    }
    else TRACE(c, "url u;");
    consistent(u, "initially");
    size_t done = 0;
    for(size_t i = 0; i < n; ++i)
    {
        chk::sync(u, p);
        Op o = gen::op(r, p);
        TRACE(c, gen::show(o));
        c.add(o.s); c.add(o.k); c.add(o.i * 64 + o.j);
        chk::op_label(c, o.k);
        string before = S(u.encoded_url());
        auto out = lib::try_call(u, o);
        if(out == lib::O_OK) ++done; else LABEL(c, "operation refused");
        consistent(u, "after " + gen::show(o) + " on " + quote(before));
    }
    if(done >= 2) c.nontrivial();
    chk::sync(u, p);
    chk::shape_labels(c, p);
}

static void r_hist(Src& r, Ctx& c) { urls::url u; history(r, c, u, 1 + r.draw(10)); }
static void r_long(Src& r, Ctx& c) { urls::url u; history(r, c, u, 30 + r.draw(60)); }

// histories concentrated on few components, so states recur
static void r_focus(Src& r, Ctx& c)
{
    static Kind const groups[][8] = {
        {SET_USER, SET_PW, SET_PW_PART, SET_USERINFO, SET_HOST, SET_PORT, SET_PORT_PART, SET_AUTHORITY},
        {SET_HOST, SET_ENC_HOST, SET_AUTHORITY, SET_ORIGIN, SET_URL, SET_PORT, SET_SCHEME, SET_USERINFO},
        {SET_PATH, SEG_INSERT, SEG_INSERT_ENC, SEG_REPLACE, SEG_REPLACE_ENC, SEG_ERASE, SEG_ERASE_RANGE, SET_AUTHORITY},
        {SET_QUERY, SET_ENC_QUERY, SET_QUERY_PART, SET_FRAG, SET_FRAG_PART, SEG_INSERT, SET_URL, SET_PATH} };
    auto const& g = groups[r.draw(4)];
    urls::url u; Parts p;
    if(r.draw(2)) { string s = gen::parts(r).text(); Arg a(s); try { u.set_encoded_url(a); } catch(urls::invalid_part const&) { return; } TRACE(c, "set_encoded_url(" << quote(s) << ")"); c.add(s); }
    size_t n = 2 + r.draw(12), done = 0;
    for(size_t i = 0; i < n; ++i)
    {
        chk::sync(u, p);
        Op o = gen::op_of(r, p, g[r.draw(8)]);
        TRACE(c, gen::show(o));
        c.add(o.s); c.add(o.k); c.add(o.i * 64 + o.j);
        chk::op_label(c, o.k);
        string before = S(u.encoded_url());
        if(lib::try_call(u, o) == lib::O_OK) ++done;
        consistent(u, "after " + gen::show(o) + " on " + quote(before));
    }
    if(done >= 2) c.nontrivial();
}

// lists longer than a 16-bit counter holds
static void r_huge(Src& r, Ctx& c)
{
    urls::url u;
    size_t n = 1 + r.draw(3), done = 0;
    for(size_t i = 0; i < n; ++i)
    {
        Parts p;
        chk::sync(u, p);
        Op o;
        switch(r.draw(5))
        {
        case 0: o.k = SET_PATH; o.s = gen::many_segments(r); if(! p.has_auth) o.s = "/a" + o.s; break;
        case 1: o.k = r.draw(2) ? SET_ENC_QUERY : SET_QUERY; o.s = gen::many_params(r); break;
        case 2: o.k = SET_QUERY_PART; o.s = "?" + gen::many_params(r); break;
        case 3: o.k = SET_URL; o.s = "//h" + gen::many_segments(r) + "?" + gen::many_params(r); break;
        default: o = gen::op(r, p);
        }
        string const w = string(kind_name(o.k)) + " with " + std::to_string(o.s.size()) + " characters " + quote(o.s.substr(0, 40));
        TRACE(c, w);
        c.add(o.s); c.add(o.k); c.add(o.i * 64 + o.j);
        chk::op_label(c, o.k);
        if(lib::try_call(u, o) == lib::O_OK) ++done;
        consistent(u, "after " + w);
    }
    if(done) c.nontrivial();
}

// every pair of operations with short arguments on every small state
static char const* const kState[] = {"", "s:", "//", "//h", "//u@h", "//u:p@h:1", "//:@", "//@", "//:1", "//1.2.3.4", "//[::1]/", "/", "/a", "a", "a/b", "/a/b", "s:a:b", "//h//x", "?", "?a=b&c", "#", "#f", "s://u:p@h:1/a/b?k=v#f", "///a", "s:/a"};
static constexpr unsigned NS = sizeof(kState) / sizeof(kState[0]);
static std::vector<Op> const& ops()
{
    static std::vector<Op> v;
    if(! v.empty()) return v;
    auto add = [&](Kind k, std::initializer_list<char const*> a) { for(auto s : a) { Op o; o.k = k; o.s = s; v.push_back(o); } };
    add(SET_URL, {"", "x", "//1.1.1.1:2/p/q?r&s=t#u"});
    add(SET_ORIGIN, {"", "t:", "t://v:w@[::2]:3/ignored"});
    add(SET_SCHEME, {"", "Q"});
    add(SET_AUTHORITY, {"", "y", "m:n@1.2.3.4:5"});
    add(SET_USERINFO, {"", "i", "i:j", ":"});
    add(SET_USERINFO_PART, {"", "@", "k:@"});
    add(SET_USER, {"", "a b"});
    add(SET_ENC_USER, {"l"});
    add(SET_PW, {"", "c:d"});
    add(SET_ENC_PW, {"e"});
    add(SET_PW_PART, {":", ":f"});
    add(SET_HOST, {"", "9.9.9.9", "n m", "[::9]"});
    add(SET_ENC_HOST, {"o", "[v1.x]"});
    add(SET_PORT, {"", "80"});
    add(SET_PORT_PART, {":", ":8"});
    add(SET_PORT_N, {""});
    add(SET_PATH, {"", "/", "/p/q", "//p", "p/q", "p:q"});
    add(SET_QUERY, {"", "a=b&c=d"});
    add(SET_ENC_QUERY, {"g"});
    add(SET_QUERY_PART, {"?", "?a&b=c&d"});
    add(SET_FRAG, {"", "h?"});
    add(SET_FRAG_PART, {"#", "#i"});
    add(SET_ENC_FRAG, {"j"});
    add(NORMALIZE, {""});
    for(size_t i = 0; i < 2; ++i)
        for(auto k : {SEG_INSERT, SEG_INSERT_ENC, SEG_REPLACE, SEG_REPLACE_ENC})
            for(auto s : {"", "r", "t:u"}) { Op o; o.k = k; o.s = s; o.i = i; v.push_back(o); }
    for(size_t i = 0; i < 2; ++i) { Op o; o.k = SEG_ERASE; o.i = i; v.push_back(o); }
    for(size_t j = 0; j < 3; ++j) { Op o; o.k = SEG_ERASE_RANGE; o.i = 0; o.j = j; v.push_back(o); }
    return v;
}

static bool applicable(Op const& o, Parts p)
{
    auto n = p.segments().size();
    switch(o.k)
    {
    case SEG_INSERT: case SEG_INSERT_ENC: return o.i <= n;
    case SEG_REPLACE: case SEG_REPLACE_ENC: return o.i < n;
    case SEG_ERASE: return o.i < n && ref::apply(p, o);     // the rest is a known finding
    case SEG_ERASE_RANGE: return o.j <= n && ref::apply(p, o);
    default: return true;
    }
}

static void run_ops(uint64_t i, unsigned depth, Ctx& c)
{
    auto const& v = ops();
    urls::url u{sv(kState[i % NS])}; i /= NS;
    TRACE(c, quote(S(u.encoded_url())));
    Parts p;
    unsigned done = 0;
    for(unsigned k = 0; k < depth; ++k)
    {
        Op const& o = v[i % v.size()]; i /= v.size();
        chk::sync(u, p);
        if(! applicable(o, p)) continue;
        string before = S(u.encoded_url());
        TRACE(c, gen::show(o));
        if(lib::try_call(u, o) == lib::O_OK) ++done;
        consistent(u, "after " + gen::show(o) + " on " + quote(before));
    }
    if(done == depth) c.nontrivial();
}
static void e_two(uint64_t i, Ctx& c) { run_ops(i, 2, c); }
static void e_three(uint64_t i, Ctx& c) { run_ops(i, 3, c); }

// "a//b" or "/a//b" or "a/b:c" without scheme: erasing the first segment. Still wrong?
static int finding(string const& text)
{
    urls::url u{sv(text)};
    auto sg = u.segments();
    sg.erase(sg.begin());
    try { consistent(u, "finding"); } catch(eng::Failure const&) { return 1; }
    return 0;
}

eng::Check const& eng::get_check()
{
    static uint64_t const n = ops().size();
    static Check const k{"C06",
        "Histories of modifying calls (all 31 kinds, valid and invalid arguments) on an empty or generated url: random up to 10, long up to 90, setting paths and queries of around 256, 32768 and 65536 elements, focused on one group of "
        "components, and all sequences of two operations (three sampled) from 80-odd fixed ones on 25 states. After every call, successful or not, the text must be valid by the "
        "reference and all 31 observers must equal those of a fresh url_view and a fresh url of that text. Non-trivial: at least two successful modifications; distinct by the "
        "whole history.",
        {{"histories", r_hist, 150000, 5000000}, {"focused", r_focus, 150000, 5000000}, {"long", r_long, 8000, 300000}, {"huge", r_huge, 60, 1000}},
        {{"two operations", e_two, NS * n * n, 0}, {"three operations", e_three, NS * n * n * n, 150000}, {"4 GiB", big::e_url, big::n_url, 0}},
        finding};
    return k;
}
