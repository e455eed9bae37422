// C07: a setter changes only its own component and documented separators
#include "check.hpp"
using namespace ref;

// Compares the whole text with the model: the component set, everything else untouched,
// separators as documented.
template<class U>
static void step(U& u, Op const& o, Ctx& c)
{
    Parts p;
    if(! chk::sync(u, p)) return;
    string const before = p.text();
    TRACE(c, gen::show(o) << " on " << quote(before));
    c.add(o.s); c.add(o.k); c.add(o.i * 64 + o.j);
    Parts const p0 = p;
    bool const want = ref::apply(p, o);
    auto const out = lib::try_call(u, o);
    if(out != lib::O_OK || ! want)
    {
        LABEL(c, "refused");
        // refusals are the subject of C05 and C08; the other components must stay in any case
        if(out != lib::O_OK && S(u.encoded_url()) != before) LABEL(c, "changed although refused (C08)");
        return;
    }
    string const what = gen::show(o) + " on " + quote(before);
    string const t = S(u.encoded_url());
    if(t != p.text()) fail(what + " gives " + quote(t) + ", expected " + quote(p.text()));
    uint32_t const m = lib::M_ALL & ~lib::M_DECODED;
    chk::expect_parts(u, p, m, what);
    if(! (p == p0)) c.nontrivial();
    if(p0.has_auth != p.has_auth) LABEL(c, "authority appears or disappears");
    if(p0.has_ui != p.has_ui) LABEL(c, "userinfo appears or disappears");
}

static void r_hist(Src& r, Ctx& c)
{
    urls::url u; Parts p;
    if(! chk::state(r, c, u, p)) return;
    c.add(p.text());
    chk::shape_labels(c, p);
    size_t n = 1 + r.draw(6);
    for(size_t i = 0; i < n; ++i)
    {
        if(! chk::sync(u, p)) return;
        Op o = gen::op(r, p);
        chk::op_label(c, o.k);
        step(u, o, c);
    }
}

// every combination of present, empty and absent components x every clearing or setting call
static Parts combo(uint64_t& i)
{
    static char const* const ui[] = {"", "", "u", "u:", ":", ":p", "u:p"};
    static char const* const hs[] = {"", "h", "1.2.3.4", "[::1]"};
    static char const* const ph[] = {"", "/", "/a", "/a/b", "//a", "a", "a:b/c"};
    auto t = [&](uint64_t n) { auto k = i % n; i /= n; return k; };
    Parts p;
    p.has_scheme = t(2); if(p.has_scheme) p.scheme = "Sch";
    p.has_auth = t(2);
    auto u = t(7), h = t(4), o = t(3);
    if(p.has_auth)
    {
        p.has_ui = u != 0; string x = ui[u]; auto k = x.find(':');
        p.user = x.substr(0, k);
        if(k != string::npos) { p.has_pw = true; p.pw = x.substr(k + 1); }
        p.host = hs[h]; p.has_port = o != 0; p.port = o == 2 ? "80" : "";
    }
    p.path = ph[t(7)];
    auto q = t(3); p.has_query = q != 0; p.query = q == 2 ? "k=v&l" : "";
    q = t(3); p.has_frag = q != 0; p.frag = q == 2 ? "f" : "";
    return p;
}
static uint64_t const n_combo = 2 * 2 * 7 * 4 * 3 * 7 * 3 * 3;

static std::vector<Op> const& ops()
{
    static std::vector<Op> v;
    if(! v.empty()) return v;
    auto add = [&](Kind k, std::initializer_list<char const*> a) { for(auto s : a) { Op o; o.k = k; o.s = s; v.push_back(o); } };
    add(SET_SCHEME, {"", "Q", "longer-scheme"}); add(SET_AUTHORITY, {"", "y", "m:n@1.2.3.4:5"}); add(SET_ORIGIN, {"", "t:", "t://v:w@[::2]:3/ignored"});
    add(SET_USERINFO, {"", "i", "i:j", ":", "i:"}); add(SET_USERINFO_PART, {"", "@", "k:@"});
    add(SET_USER, {"", "a b"}); add(SET_ENC_USER, {"", "l", "longer"}); add(SET_PW, {"", "c:d"}); add(SET_ENC_PW, {"", "e", "longer"}); add(SET_PW_PART, {"", ":", ":f"});
    add(SET_HOST, {"", "9.9.9.9", "n m", "[::9]"}); add(SET_ENC_HOST, {"", "o", "[v1.x]", "longer"});
    add(SET_PORT, {"", "80", "8080"}); add(SET_PORT_PART, {"", ":", ":8"}); add(SET_PORT_N, {""});
    add(SET_PATH, {"", "/", "/p/q", "//p", "p/q", "p:q"}); add(SET_QUERY, {"", "a=b&c=d#"}); add(SET_ENC_QUERY, {"", "g"}); add(SET_QUERY_PART, {"", "?", "?a&b=c&d"});
    add(SET_FRAG, {"", "h?#"}); add(SET_ENC_FRAG, {"", "j"}); add(SET_FRAG_PART, {"", "#", "#i"}); add(NORMALIZE, {""}); add(NORMALIZE_SCHEME, {""});
    for(auto s : {"", "r", "t:u"}) for(auto k : {SEG_INSERT, SEG_REPLACE_ENC}) { Op o; o.k = k; o.s = s; v.push_back(o); }
    return v;
}
static void e_combo(uint64_t i, Ctx& c)
{
    Parts p = combo(i);
    if(! ref::path_ok(p.path, p.has_scheme, p.has_auth)) return;
    string t = p.text();
    urls::url u;
    try { u.set_encoded_url(sv(t.data(), t.size())); } catch(urls::invalid_part const&) { return; }
    Op const& o = ops()[i];
    if(o.k == SEG_REPLACE_ENC && p.path.empty()) return;
    c.add(t);
    step(u, o, c);
}

eng::Check const& eng::get_check()
{
    static uint64_t const n = ops().size();
    static Check const k{"C07",
        "(state, call) pairs along generated histories, and all 21168 combinations of present, empty and absent components x all 65-odd clearing and setting calls. The text and "
        "all text observers after a successful call must be those of a model that changes only the named component and the documented separators. Non-trivial: at least one call "
        "changes the URL; distinct by history.",
        {{"histories", r_hist, 400000, 12000000}},
        {{"component combinations", e_combo, n_combo * n, 0}}};
    return k;
}
