// C20: any URL can be built from parts, in any order, with one result
#include "check.hpp"
using namespace ref;

// the calls that produce p from an empty url, from the values its observers report. variant picks among
// equivalent ways of setting the authority and among plain, encoded and *_part setters.
static std::vector<Op> recipe(Src& r, Parts const& p)
{
    std::vector<Op> v;
    auto add = [&](Kind k, string const& s) { Op o; o.k = k; o.s = s; v.push_back(o); };
    bool scheme_done = false;
    if(p.has_auth)
    {
        string const a = p.authority();
        bool const pieces = ! (p.has_ui && p.user.empty() && ! p.has_pw) && ! (p.has_pw && ! p.pw.empty() && p.pw[0] == ':') && ! a.empty();
        if(a.empty())
        {
            if(p.has_scheme) { add(SET_ORIGIN, p.origin()); scheme_done = true; }
            else { add(SET_USER, "x"); add(SET_USER, ""); }       // clearing only the user keeps the authority
        }
        else if(p.has_scheme && r.draw(6) == 5) { add(SET_ORIGIN, p.origin()); scheme_done = true; }
        else if(! pieces || r.draw(3) == 2) add(SET_AUTHORITY, a);
        else
        {
            if(p.has_ui && r.draw(3) == 2) add(r.draw(2) ? SET_USERINFO : SET_USERINFO_PART, "");
            if(p.has_ui && ! v.empty()) v.back().s = v.back().k == SET_USERINFO ? p.userinfo() : p.userinfo_part();
            else if(p.has_ui)
            {
                if(! p.user.empty()) add(SET_ENC_USER, p.user);
                if(p.has_pw) { if(p.pw.empty() || r.draw(2)) add(SET_PW_PART, p.pw_part()); else add(SET_ENC_PW, p.pw); }
            }
            if(! p.host.empty()) add(SET_ENC_HOST, p.host);
            if(p.has_port) { if(p.port.empty() || r.draw(2)) add(SET_PORT_PART, p.port_part()); else add(SET_PORT, p.port); }
        }
    }
    if(p.has_scheme && ! scheme_done) add(SET_SCHEME, p.scheme);
    if(! p.path.empty())
    {
        // a path can also be made segment by segment, when that is permitted
        add(SET_PATH, p.path);
    }
    if(p.has_query) { if(p.query.empty() || r.draw(2)) add(SET_QUERY_PART, p.query_part()); else add(SET_ENC_QUERY, p.query); }
    if(p.has_frag) { if(p.frag.empty() || r.draw(2)) add(SET_FRAG_PART, p.frag_part()); else add(SET_ENC_FRAG, p.frag); }
    return v;
}

// applies the calls in a random order in which each step is permitted
static bool build(Src& r, Ctx& c, urls::url& u, std::vector<Op> v, Parts const& goal)
{
    Parts p;
    string log;
    // the empty url may have held something before
    uint32_t const how = r.draw(6);
    if(how >= 4)
    {
        Parts q = r.draw(3) ? gen::parts(r) : goal;
        string const t = q.text(); Arg a(t);
        try { u.set_encoded_url(a); } catch(urls::invalid_part const&) { return false; }
        if(how == 4) u.set_encoded_url(""); else { urls::url other(std::move(u)); }
        if(! u.encoded_url().empty()) return false;
        log = "url(" + quote(t) + (how == 4 ? ") emptied; " : ") moved from; ");
        TRACE(c, log); LABEL(c, "emptied url"); c.add(t);
    }
    while(! v.empty())
    {
        // permitted calls, keeping the order of the two that only make sense together
        std::vector<size_t> can;
        for(size_t i = 0; i < v.size(); ++i)
        {
            if(v[i].k == SET_USER && v[i].s.empty()) { bool wait = false; for(auto& o : v) if(o.k == SET_USER && ! o.s.empty()) wait = true; if(wait) continue; }
            Parts t = p;
            if(ref::apply(t, v[i])) can.push_back(i);
        }
        if(can.empty()) { LABEL(c, "no permitted step (not built)"); return false; }
        size_t const k = can[r.draw(uint32_t(can.size()))];
        // a step that is not permitted yet must be refused and change nothing
        if(can.size() < v.size() && r.draw(2))
        {
            for(size_t i = 0; i < v.size(); ++i)
            {
                Parts t = p;
                if(ref::apply(t, v[i])) continue;
                LABEL(c, "attempted a step too early");
                TRACE(c, gen::show(v[i]) << " (too early)");
                if(lib::try_call(u, v[i]) == lib::O_OK) return false;      // C08
                if(S(u.encoded_url()) != p.text()) return false;
                break;
            }
        }
        Op const o = v[k];
        v.erase(v.begin() + k);
        TRACE(c, gen::show(o)); c.add(o.s); c.add(o.k);
        log += gen::show(o) + "; ";
        auto const out = lib::try_call(u, o);
        if(out != lib::O_OK) fail("building " + quote(goal.text()) + " by " + log + " the last call " + lib::oname(out));
        ref::apply(p, o);
    }
    string const what = "built by " + log;
    if(S(u.encoded_url()) != goal.text()) fail(what + "the result is " + quote(S(u.encoded_url())) + ", expected " + quote(goal.text()));
    chk::expect_parts(static_cast<urls::url const&>(u), goal, lib::M_ALL, what);
    return true;
}

static void orders(Src& r, Ctx& c, Parts const& goal)
{
    urls::url a, b;
    auto v = recipe(r, goal);
    TRACE(c, "goal " << quote(goal.text()));
    if(! build(r, c, a, v, goal)) return;
    TRACE(c, "again");
    auto w = recipe(r, goal);
    if(! build(r, c, b, w, goal)) return;
    if(v.size() >= 3) c.nontrivial();
    chk::shape_labels(c, goal);
}

static void r_build(Src& r, Ctx& c) { orders(r, c, gen::parts(r)); }

// plain setters: the decoded values give a URL with the same decoded values and canonical escapes
static void r_plain(Src& r, Ctx& c)
{
    Parts g = gen::parts(r);
    std::vector<Op> v;
    auto add = [&](Kind k, string const& s) { if(s.empty()) return; Op o; o.k = k; o.s = s; v.push_back(o); };
    if(g.has_scheme) add(SET_SCHEME, g.scheme);
    if(g.has_auth) { add(SET_USER, decode(g.user)); add(SET_PW, decode(g.pw)); add(SET_HOST, g.kind() == H_NAME ? decode(g.host) : g.host); add(SET_PORT, g.port); }
    add(SET_PATH, g.path); add(SET_QUERY, decode(g.query)); add(SET_FRAG, decode(g.frag));
    // the result in one fixed order, by the reference: authority and scheme before the path
    Parts goal;
    for(auto& o : v) if(! ref::apply(goal, o)) return;
    urls::url u;
    TRACE(c, "plain values of " << quote(g.text()));
    if(build(r, c, u, v, goal) && v.size() >= 3) c.nontrivial();
}

// the value handed over as the observer returns it: a view of the url's own text
static lib::Outcome same_direct(urls::url& u, Kind k)
{
    try
    {
        switch(k)
        {
        case SET_URL: u.set_encoded_url(u.encoded_url()); break;
        case SET_SCHEME: u.set_scheme(u.scheme()); break;
        case SET_AUTHORITY: u.set_encoded_authority(u.encoded_authority()); break;
        case SET_USERINFO: u.set_encoded_userinfo(u.encoded_userinfo()); break;
        case SET_USERINFO_PART: u.set_userinfo_part(u.userinfo_part()); break;
        case SET_ENC_USER: u.set_encoded_user(u.encoded_user()); break;
        case SET_ENC_PW: u.set_encoded_password(u.encoded_password()); break;
        case SET_PW_PART: u.set_password_part(u.password_part()); break;
        case SET_ENC_HOST: u.set_encoded_host(u.encoded_host()); break;
        case SET_PORT: u.set_port(u.port()); break;
        case SET_PORT_PART: u.set_port_part(u.port_part()); break;
        case SET_PATH: u.set_encoded_path(u.encoded_path()); break;
        case SET_ENC_QUERY: u.set_encoded_query(u.encoded_query()); break;
        case SET_QUERY_PART: u.set_query_part(u.query_part()); break;
        case SET_ENC_FRAG: u.set_encoded_fragment(u.encoded_fragment()); break;
        case SET_FRAG_PART: u.set_fragment_part(u.fragment_part()); break;
        case SET_ORIGIN: u.set_encoded_origin(u.encoded_origin()); break;
        default: break;
        }
        return lib::O_OK;
    }
    catch(urls::invalid_part const&) { return lib::O_INVALID_PART; }
}

// setting any component to the value the observer reports
static void r_same(Src& r, Ctx& c)
{
    urls::url u; Parts p;
    if(! chk::state(r, c, u, p)) return;
    struct { Kind k; string s; } const all[] = {
        {SET_URL, S(u.encoded_url())}, {SET_SCHEME, S(u.scheme())}, {SET_AUTHORITY, S(u.encoded_authority())}, {SET_USERINFO, S(u.encoded_userinfo())}, {SET_USERINFO_PART, S(u.userinfo_part())},
        {SET_ENC_USER, S(u.encoded_user())}, {SET_ENC_PW, S(u.encoded_password())}, {SET_PW_PART, S(u.password_part())}, {SET_ENC_HOST, S(u.encoded_host())}, {SET_PORT, S(u.port())}, {SET_PORT_PART, S(u.port_part())},
        {SET_PATH, S(u.encoded_path())}, {SET_ENC_QUERY, S(u.encoded_query())}, {SET_QUERY_PART, S(u.query_part())}, {SET_ENC_FRAG, S(u.encoded_fragment())}, {SET_FRAG_PART, S(u.fragment_part())}, {SET_ORIGIN, S(u.encoded_origin())} };
    size_t n = 1 + r.draw(5);
    string log;
    for(size_t i = 0; i < n; ++i)
    {
        uint32_t const w = r.draw(24);
        if(w >= 17)
        {
            // plain values whose encoding is the stored one, the port as a number, a segment
            Op o;
            auto plain = [&](Kind k, Cls cls, string const& e) { o.k = k; o.s = decode(e); return ! e.empty() && encode(cls, o.s) == e; };
            bool ok = false;
            switch(w)
            {
            case 17: ok = plain(SET_USER, C_USER, p.user); break;
            case 18: ok = plain(SET_PW, C_USERINFO, p.pw); break;
            case 19: if(p.kind() == H_NAME) { ok = plain(SET_HOST, C_REG, p.host); ok = ok && host_kind(o.s) != H_IPV6 && host_kind(o.s) != H_FUTURE && host_kind(o.s) != H_IPV4; } else { o.k = SET_HOST; o.s = p.host; ok = ! o.s.empty(); } break;
            case 20: ok = plain(SET_QUERY, C_QUERY, p.query); break;
            case 21: ok = plain(SET_FRAG, C_QUERY, p.frag); break;
            case 22: if(! p.port.empty() && p.port.size() < 10 && (p.port[0] != '0' || p.port.size() == 1)) { o.k = SET_PORT_N; o.n = unsigned(std::stoul(p.port)); ok = true; } break;
            default: { auto v = p.segments(); if(! v.empty()) { o.i = r.draw(uint32_t(v.size())); o.k = SEG_REPLACE_ENC; o.s = v[o.i]; if(r.draw(2) && encode(C_PCHAR, decode(o.s)) == o.s) { o.k = SEG_REPLACE; o.s = decode(o.s); } ok = true; } }
            }
            if(! ok) continue;
            TRACE(c, gen::show(o) << " on " << quote(p.text())); c.add(o.s); c.add(o.k);
            log += gen::show(o) + "; ";
            auto out = lib::try_call(u, o);
            if(out != lib::O_OK) fail("setting a component of " + quote(p.text()) + " to its own value: " + log + lib::oname(out));
            chk::expect_parts(static_cast<urls::url const&>(u), p, lib::M_ALL, "setting a component to its own value: " + log);
            chk::op_label(c, o.k);
            c.nontrivial();
            continue;
        }
        auto const& x = all[w];
        // an empty value removes the component, and ':' cannot begin an encoded password
        if(x.s.empty() && x.k != SET_URL && x.k != SET_PATH && x.k != SET_QUERY_PART && x.k != SET_FRAG_PART && x.k != SET_SCHEME) continue;
        if(x.k == SET_USERINFO_PART && x.s == "@") continue;
        if((x.k == SET_ENC_PW && x.s[0] == ':') || (x.k == SET_PW_PART && x.s.compare(0, 2, "::") == 0)) continue;
        if(x.k == SET_ORIGIN && ! p.has_scheme) continue;
        if(x.k == SET_AUTHORITY && x.s.empty()) continue;
        Op o; o.k = x.k; o.s = x.s;
        bool const direct = r.draw(2);
        if(direct) { log += "directly "; LABEL(c, "view of the url itself"); }
        TRACE(c, gen::show(o) << (direct ? " directly" : "") << " on " << quote(p.text())); c.add(o.s); c.add(o.k);
        log += gen::show(o) + "; ";
        size_t const cap = u.capacity();
        auto const* d = u.data();
        auto out = direct ? same_direct(u, o.k) : lib::try_call(u, o);
        if(out != lib::O_OK) fail("setting a component of " + quote(p.text()) + " to its own value: " + log + lib::oname(out));
        chk::expect_parts(static_cast<urls::url const&>(u), p, lib::M_ALL, "setting a component to its own value: " + log);
        if(u.capacity() != cap || u.data() != d) LABEL(c, "buffer moved");
        chk::op_label(c, o.k);
        if(! x.s.empty()) c.nontrivial();
    }
    c.add(p.text());
}

// a path built segment by segment at random positions equals the path set at once
static void r_segments(Src& r, Ctx& c)
{
    Parts g = gen::parts(r);
    if(! g.has_auth) { g.has_auth = true; g.host = "h"; }
    g.path = gen::path(r, true, true);
    std::vector<string> v = g.segments();
    urls::url u; Parts base = g; base.path.clear();
    string const bt = base.text();
    Arg a(bt);
    try { u.set_encoded_url(a); } catch(urls::invalid_part const&) { return; }
    TRACE(c, "goal " << quote(g.text()));
    // insert the segments in a random order, each at its place among those present
    std::vector<size_t> order, present;
    for(size_t i = 0; i < v.size(); ++i) order.push_back(i);
    for(size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.draw(uint32_t(i))]);
    for(size_t k : order)
    {
        Op o; o.k = SEG_INSERT_ENC; o.s = v[k];
        for(size_t j : present) if(j < k) ++o.i;
        if(r.draw(3) == 2 && decode(v[k]) != v[k] && encode(C_PCHAR, decode(v[k])) == v[k]) { o.k = SEG_INSERT; o.s = decode(v[k]); }
        TRACE(c, gen::show(o)); c.add(o.s); c.add(o.i);
        if(lib::try_call(u, o) != lib::O_OK) fail("building " + quote(g.text()) + " by segments: " + gen::show(o) + " is refused on " + quote(S(u.encoded_url())));
        present.push_back(k);
    }
    chk::expect_parts(static_cast<urls::url const&>(u), g, lib::M_ALL, "path built by segments");
    if(v.size() >= 2) c.nontrivial();
}

// all permutations for all presence patterns of the components
static void e_orders(uint64_t i, Ctx& c)
{
    Parts p;
    if(i & 1) { p.has_scheme = true; p.scheme = "sc"; } i >>= 1;
    unsigned au = i % 12; i /= 12;
    static char const* const kA[] = {nullptr, "h", "u@h", "u:p@h", "u:p@h:1", ":p@", "u:@1.2.3.4", "h:", ":80", "[::1]:80", "u@", "u:p@:9"};
    if(kA[au]) parse_authority(kA[au], p);
    static char const* const kP[] = {"", "/", "/a/b", "a/b", "//x", "a:b", "/a//"};
    p.path = kP[i % 7]; i /= 7;
    if(i & 1) { p.has_query = true; p.query = "q=1"; } i >>= 1;
    if(i & 1) { p.has_frag = true; p.frag = "f"; } i >>= 1;
    if(! path_ok(p.path, p.has_scheme, p.has_auth)) return;
    Src r; r.seed(i * 7919 + 13);          // i selects the order
    urls::url u;
    TRACE(c, "goal " << quote(p.text()));
    auto v = recipe(r, p);
    if(build(r, c, u, v, p) && v.size() >= 2) c.nontrivial();
}

eng::Check const& eng::get_check()
{
    static Check const k{"C20",
        "Random valid URLs are rebuilt from an empty url (new, emptied or moved from) by setting each component to the value the observers report (through plain, encoded, *_part and composite setters), twice, in random orders in which the reference "
        "permits each step; steps tried too early must change nothing. Also from decoded values, segment by segment in random order, and for 672 presence patterns of components in 40 orders each. Components are set to the "
        "value they already have. The text and all 31 observers must be those of the goal. Non-trivial: at least three calls (two for segments and patterns, one non-empty value for re-setting); distinct by goal and calls.",
        {{"built twice", r_build, 250000, 8000000}, {"plain values", r_plain, 150000, 5000000}, {"own value", r_same, 250000, 8000000}, {"segments", r_segments, 100000, 3000000}},
        {{"orders", e_orders, 2 * 12 * 7 * 4 * 40, 0}}};
    return k;
}
