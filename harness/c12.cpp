// C12: params() enumerates the query parameters exactly, both directions
#include "walk.hpp"
#include "big.hpp"
using namespace ref;

static void three(string const& t, Parts const& p, Src* r, size_t steps)
{
    auto const want = p.params();
    Arg a(t);
    try
    {
        urls::url_view v(a);
        walk::all(v.params(), want, "url_view(" + quote(t) + ").params()");
        if(r) walk::mixed(v.params(), want, *r, steps, "url_view(" + quote(t) + ").params()");
        urls::url u{a.view()};
        urls::url const& cu = u;
        walk::all(cu.params(), want, "const url(" + quote(t) + ").params()");
        walk::all(u.params(), want, "url(" + quote(t) + ").params()");
        if(r)
        {
            walk::mixed(cu.params(), want, *r, steps, "const url(" + quote(t) + ").params()");
            walk::mixed(u.params(), want, *r, steps, "url(" + quote(t) + ").params()");
        }
    }
    catch(urls::invalid_part const&) { }    // C01
}

static void labels(Ctx& c, Parts const& p)
{
    auto v = p.params();
    if(v.size() > 1 || (v.size() == 1 && p.has_frag)) c.nontrivial();
    if(! p.has_query) LABEL(c, "no query"); else if(v.size() == 1) LABEL(c, "1 parameter"); else if(v.size() < 5) LABEL(c, "2-4 parameters"); else LABEL(c, "5 or more parameters");
    for(auto& e : v) if(e.first.empty()) { LABEL(c, "with an empty key"); break; }
    for(auto& e : v) if(e.first.find('&') != string::npos) { LABEL(c, "& in a key"); break; }
    for(auto& e : v) if(e.second.find('=') != string::npos) { LABEL(c, "= in a value"); break; }
    if(p.frag.find('&') != string::npos || p.frag.find('=') != string::npos) LABEL(c, "& or = in the fragment");
    chk::shape_labels(c, p);
}

static char const* const kPre[] = {"", "s:", "//h", "/a&b=c", "s://u:p@h:1/x=y"};
static char const* const kSuf[] = {"", "#", "#f", "#a=b&c=d", "#=&"};
static string const kAl("k=&%?", 5);

static void e_queries(uint64_t i, Ctx& c)
{
    string pre = kPre[i % 5]; i /= 5;
    string suf = kSuf[i % 5]; i /= 5;
    string s; for(char x : chk::nth_string(i, kAl)) if(x == '%') s += "%26"; else s += x;
    string t = pre + "?" + s + suf;
    Parts p;
    if(! ref::parse(t, p)) return;
    TRACE(c, quote(t));
    three(t, p, nullptr, 0);
    labels(c, p);
}

static void r_parse(Src& r, Ctx& c)
{
    Parts p = gen::parts(r);
    if(! p.has_query && r.draw(4)) { p.has_query = true; p.query = gen::query(r); }
    if(r.draw(3) == 2) { p.has_frag = true; p.frag = gen::query(r); }
    string t = p.text();
    TRACE(c, quote(t));
    c.add(t);
    three(t, p, &r, 2 + 3 * std::min<size_t>(p.params().size(), 60));
    labels(c, p);
}

// key=value lists as a user writes them
static void r_list(Src& r, Ctx& c)
{
    Parts p = gen::parts(r);
    size_t n = 1 + (r.draw(8) ? r.draw(8) : r.draw(120));
    p.has_query = true; p.query.clear();
    for(size_t i = 0; i < n; ++i)
    {
        if(i) p.query += "&";
        p.query += gen::enc_n(r, C_REG, r.draw(4));
        if(r.draw(8)) { p.query += "="; p.query += gen::enc_n(r, C_REG, r.draw(4)); }
    }
    string t = p.text();
    TRACE(c, quote(t));
    c.add(t);
    three(t, p, &r, 40);
    labels(c, p);
}

// more parameters than a 16-bit counter holds
static void r_huge(Src& r, Ctx& c)
{
    Parts p; p.path = "p";
    p.has_query = true; p.query = gen::many_params(r);
    if(r.draw(2)) { p.has_frag = true; p.frag = "f&g"; }
    string t = p.text();
    TRACE(c, p.query.size() << " characters, " << p.params().size() << " parameters: " << quote(t.substr(0, 40)));
    c.add(t);
    three(t, p, &r, 20);
    labels(c, p);
}

static void r_hist(Src& r, Ctx& c)
{
    urls::url u; Parts p;
    if(! chk::state(r, c, u, p)) return;
    static Kind const q[] = {SET_QUERY, SET_ENC_QUERY, SET_QUERY_PART, SET_FRAG, SET_ENC_FRAG, SET_FRAG_PART, SET_URL, SET_PATH};
    auto const kept = u.params();        // follows the url
    size_t n = 1 + r.draw(6);
    for(size_t i = 0; i < n; ++i)
    {
        Op o = r.draw(2) ? gen::op_of(r, p, q[r.draw(8)]) : gen::op(r, p);
        TRACE(c, gen::show(o));
        if(lib::try_call(u, o) == lib::O_OTHER) return;
        if(! chk::sync(u, p)) return;
        auto const want = p.params();
        string w = "after " + gen::show(o) + " making " + quote(p.text());
        urls::url const& cu = u;
        walk::all(cu.params(), want, w + ", const params()");
        walk::all(u.params(), want, w + ", params()");
        walk::all(kept, want, w + ", params() taken before");
        walk::mixed(cu.params(), want, r, 6, w + ", const params()");
        walk::mixed(u.params(), want, r, 6, w + ", params()");
    }
    c.add(p.text());
    labels(c, p);
}

eng::Check const& eng::get_check()
{
    static Check const k{"C12",
        "All queries of up to 6 pieces from { k = & %26 ? } behind 5 prefixes and in front of 5 fragments; random URLs, key=value lists of up to 120 parameters and with counts around 256, 32768 and 65536; urls after random modification "
        "histories. Each is walked as url_view, const url and url: size, empty, ++ and -- in both forms, -> and *, encoded and decoded key and value, pair conversion, random mixtures of ++ and --. "
        "The expected list follows the rule in the statement. Non-trivial: two parameters, or one in front of a fragment; distinct by text.",
        {{"parsed", r_parse, 300000, 8000000}, {"lists", r_list, 100000, 3000000}, {"huge", r_huge, 60, 1000}, {"after histories", r_hist, 250000, 6000000}},
        {{"queries", e_queries, 25 * chk::count_strings(5, 6), 0}, {"4 GiB", big::e_some<5>, big::some(1), 0}}};
    return k;
}
