// C10: segments() enumerates the path exactly, in both directions
#include "walk.hpp"
#include "big.hpp"
using namespace ref;

static void three(string const& t, Parts const& p, Src* r, size_t steps)
{
    auto const want = p.segments();
    Arg a(t);
    try
    {
        urls::url_view v(a);
        walk::all(v.segments(), want, "url_view(" + quote(t) + ").segments()");
        if(r) walk::mixed(v.segments(), want, *r, steps, "url_view(" + quote(t) + ").segments()");
        urls::url u{a.view()};
        urls::url const& cu = u;
        walk::all(cu.segments(), want, "const url(" + quote(t) + ").segments()");
        walk::all(u.segments(), want, "url(" + quote(t) + ").segments()");
        if(r)
        {
            walk::mixed(cu.segments(), want, *r, steps, "const url(" + quote(t) + ").segments()");
            walk::mixed(u.segments(), want, *r, steps, "url(" + quote(t) + ").segments()");
        }
    }
    catch(urls::invalid_part const&) { }    // C01
}

static void labels(Ctx& c, Parts const& p)
{
    auto v = p.segments();
    if(v.size() > 1 && (p.has_query || p.has_frag || p.has_auth || p.has_scheme)) c.nontrivial();
    if(v.empty()) LABEL(c, "no segments"); else if(v.size() == 1) LABEL(c, "1 segment"); else if(v.size() < 5) LABEL(c, "2-4 segments"); else LABEL(c, "5 or more segments");
    for(auto& s : v) if(s.empty()) { LABEL(c, "with an empty segment"); break; }
    if(p.query.find('/') != string::npos || p.frag.find('/') != string::npos) LABEL(c, "slash in query or fragment");
    chk::shape_labels(c, p);
}

static char const* const kPre[] = {"", "s:", "//h", "//", "s://u:p@h:1", "//1.2.3.4", "//u/v@h"};
static char const* const kSuf[] = {"", "?", "?q/r", "#", "#f/g", "?/a/b#/c", "?k=v#", "#?/"};
static string const kAl("/a:%", 4);

static void e_paths(uint64_t i, Ctx& c)
{
    string pre = kPre[i % 7]; i /= 7;
    string suf = kSuf[i % 8]; i /= 8;
    string s; for(char x : chk::nth_string(i, kAl)) if(x == '%') s += "%2F"; else s += x;
    string t = pre + s + suf;
    Parts p;
    if(! ref::parse(t, p)) return;
    TRACE(c, quote(t));
    three(t, p, nullptr, 0);
    labels(c, p);
}

static void r_parse(Src& r, Ctx& c)
{
    Parts p = gen::parts(r);
    string t = p.text();
    TRACE(c, quote(t));
    c.add(t);
    three(t, p, &r, 2 + 3 * p.segments().size());
    labels(c, p);
}

// many segments
static void r_many(Src& r, Ctx& c)
{
    Parts p = gen::parts(r);
    size_t n = 20 + r.draw(300);
    string s;
    for(size_t i = 0; i < n; ++i) { s += "/"; if(r.draw(3)) s += gen::segment(r).substr(0, 40); }
    if(s.compare(0, 2, "//") == 0) s.insert(1, "x");
    while(! valid_path_chars(s)) { auto k = s.find('%'); if(k == string::npos) return; s.erase(k, 1); }
    p.path = s;
    string t = p.text();
    TRACE(c, quote(t));
    c.add(t);
    three(t, p, &r, 100);
    labels(c, p);
}

// more segments than a 16-bit counter holds
static void r_huge(Src& r, Ctx& c)
{
    Parts p; p.has_auth = true; p.host = "h";
    p.path = gen::many_segments(r);
    if(r.draw(2)) { p.has_query = true; p.query = "q/r"; }
    string t = p.text();
    TRACE(c, p.path.size() << " characters, " << p.segments().size() << " segments: " << quote(t.substr(0, 40)));
    c.add(t);
    three(t, p, &r, 20);
    labels(c, p);
}

// after modifications
static void r_hist(Src& r, Ctx& c)
{
    urls::url u; Parts p;
    if(! chk::state(r, c, u, p)) return;
    auto const kept = u.segments();        // follows the url
    size_t n = 1 + r.draw(6);
    for(size_t i = 0; i < n; ++i)
    {
        Op o = gen::op(r, p);
        TRACE(c, gen::show(o));
        if(lib::try_call(u, o) == lib::O_OTHER) return;
        if(! chk::sync(u, p)) return;
        auto const want = p.segments();
        string w = "after " + gen::show(o) + " making " + quote(p.text());
        urls::url const& cu = u;
        walk::all(cu.segments(), want, w + ", const segments()");
        walk::all(u.segments(), want, w + ", segments()");
        walk::all(kept, want, w + ", segments() taken before");
        walk::mixed(cu.segments(), want, r, 6, w + ", const segments()");
        walk::mixed(u.segments(), want, r, 6, w + ", segments()");
    }
    c.add(p.text());
    labels(c, p);
}

eng::Check const& eng::get_check()
{
    static Check const k{"C10",
        "All paths of up to 6 pieces from { / a : %2F } in 7 origins and 8 queries and fragments; random URLs; URLs with 20 to 320 segments and with counts around 256, 32768 and 65536; urls after random modification histories. "
        "Each is walked as url_view, const url and url: size, empty, ++ and -- in both forms, -> and *, comparison with begin and end, the standard algorithms and std::reverse_iterator (where the iterator has traits), random mixtures of ++ and -- with all visited positions "
        "remembered. The expected list is the reference's split of the path. Non-trivial: more than one segment next to another component; distinct by text.",
        {{"parsed", r_parse, 400000, 10000000}, {"many segments", r_many, 6000, 200000}, {"huge", r_huge, 60, 1000}, {"after histories", r_hist, 250000, 6000000}},
        {{"paths", e_paths, 7 * 8 * chk::count_strings(4, 6), 0}, {"4 GiB", big::e_some<4, 7>, big::some(2), 0}}};
    return k;
}
