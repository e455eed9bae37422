// C14: host_type classifies every host by the RFC 3986 rules
#include "strings.hpp"
using namespace ref;

template<class U>
static void is(U const& u, string const& host, string const& what)
{
    Host const want = host_kind(host), got = lib::host(u.host_type());
    if(got != want) fail(what + ": host_type is " + host_name(got) + ", expected " + host_name(want) + " for " + quote(host));
    if(S(u.encoded_host()) != host) fail(what + ": encoded_host is " + quote(S(u.encoded_host())) + ", expected " + quote(host));
}

enum { R_VIEW, R_URL, R_SET_URL, R_ORIGIN, R_AUTH, R_ENC_HOST, R_HOST, R_AFTER_PORT, R_AFTER_UI, R_COPY, N_ROUTES };
static char const* const kRoute[] = {"url_view", "url", "set_encoded_url", "set_encoded_origin", "set_encoded_authority", "set_encoded_host", "set_host",
    "set_encoded_host, set_port, set_encoded_path", "set_encoded_host, set_encoded_userinfo, set_scheme", "copy and move"};

// brings host h into a URL (which held another kind of host before) and checks the class
static void route(unsigned way, unsigned before, string const& h, Ctx& c)
{
    static char const* const kBefore[] = {"", "x:p?q", "//n", "//1.2.3.4:5/p", "s://u:w@[::1]/", "//[v1.x]:#f", "//@", "s://9.8.7.6", "//u:p@:1"};
    string const what = string(kRoute[way]) + " with host " + quote(h) + " on " + quote(kBefore[before % 9]);
    TRACE(c, what);
    Host const k = host_kind(h);
    bool const ok = k != H_BAD;
    if(ok) c.nontrivial();
    urls::url u;
    if(way > R_URL) u.set_encoded_url(kBefore[before % 9]);
    string want = h;
    bool accepted = true;
    // a host that cannot stand where it would be parsed as such is only given to the host setters
    bool const whole = h.find_first_of("/?#@") == string::npos && (h.find(':') == string::npos || (h[0] == '[' && h.find(':', std::min(h.find(']'), h.size())) == string::npos));
    try
    {
        switch(way)
        {
        case R_VIEW: if(! whole) return; { Arg a("//" + h + "/p"); urls::url_view v(a); is(v, h, what); Arg b("s://u:p@" + h + ":1"); urls::url_view w(b); is(w, h, what); } break;
        case R_URL: if(! whole) return; { Arg a("//" + h + "?q"); urls::url x{a.view()}; is(x, h, what); } break;
        case R_SET_URL: if(! whole) return; { Arg a("s://" + h); u.set_encoded_url(a); } break;
        case R_ORIGIN: if(! whole) return; { Arg a("t://u@" + h + ":80"); if(u.encoded_path() == "p") u.set_encoded_path(""); u.set_encoded_origin(a); } break;
        case R_AUTH: if(! whole) return; { Arg a(h + (before % 2 ? ":7" : "")); if(u.encoded_path() == "p") u.set_encoded_path(""); u.set_encoded_authority(a); } break;
        case R_HOST:
        {
            if(u.encoded_path() == "p") u.set_encoded_path("");
            Arg a(h); u.set_host(a);
            if(k != H_IPV4 && k != H_IPV6 && k != H_FUTURE) want = encode(C_REG, h);
            break;
        }
        case R_COPY:
        {
            Arg a(h);
            if(u.encoded_path() == "p") u.set_encoded_path("");
            u.set_encoded_host(a);
            urls::url x(u); is(x, h, what + " (copy)");
            urls::url y; y.set_encoded_url("//other"); y = x; is(y, h, what + " (copy assignment)");
            urls::url z(std::move(x)); is(z, h, what + " (moved to)"); is(x, "", what + " (moved from)");
            break;
        }
        default:
        {
            Arg a(h);
            if(u.encoded_path() == "p") u.set_encoded_path("");
            u.set_encoded_host(a);
            if(way == R_AFTER_PORT) { u.set_port("99"); is(u, h, what); u.set_encoded_path("/longer/path"); is(u, h, what); u.set_port(""); }
            else if(way == R_AFTER_UI) { u.set_encoded_userinfo("usr:pw"); is(u, h, what); u.set_scheme("scheme"); is(u, h, what); u.set_userinfo_part(""); is(u, h, what); u.set_scheme(""); }
        }
        }
    }
    catch(urls::invalid_part const&) { accepted = false; }
    if(accepted != (ok || way == R_HOST))
        fail(what + (accepted ? ": accepted" : ": refused"));
    if(accepted && way > R_URL) is(u, want, what);
    c.label(accepted ? Ctx::label_id("accepted") : Ctx::label_id("refused"));
    switch(k) { case H_NONE: LABEL(c, "none"); break; case H_NAME: LABEL(c, "name"); break; case H_IPV4: LABEL(c, "ipv4"); break;
        case H_IPV6: LABEL(c, "ipv6"); break; case H_FUTURE: LABEL(c, "ipvfuture"); break; case H_BAD: LABEL(c, "not a host"); break; }
}

static string const kV4("0123456789.", 11), kNear("125.a", 5), kBr("[]:1v.g", 7);
static void all_routes(uint64_t salt, string const& h, Ctx& c) { for(unsigned w = 0; w < N_ROUTES; ++w) route(w, unsigned(eng::mix(salt + w) % 9), h, c); }
static void e_v6(uint64_t i, Ctx& c) { all_routes(i, "[" + fam::v6(i) + "]", c); }
static void e_oct(uint64_t i, Ctx& c) { bool t; string s = fam::octets(i, t); all_routes(i, t ? "[::" + s + "]" : s, c); }
static void e_oct4(uint64_t i, Ctx& c) { all_routes(i, fam::oct4(i), c); }
static void e_br(uint64_t i, Ctx& c) { all_routes(i, chk::nth_string(i, kBr), c); }
static void e_near(uint64_t i, Ctx& c) { all_routes(i, "1.2." + chk::nth_string(i, kNear), c); }
static void e_lit(uint64_t i, Ctx& c) { all_routes(i, "[" + chk::nth_string(i, fam::kLit) + "]", c); }

static string some_host(Src& r)
{
    switch(r.draw(9))
    {
    case 0: return gen::host(r);
    case 1: return gen::ipv4(r);
    case 2: return gen::ipv4_near(r);
    case 3: return "[" + gen::ipv6(r) + "]";
    case 4: return "[" + gen::ipv6_near(r) + "]";
    case 5: return "[" + gen::ipvfuture(r) + "]";
    case 6: return "[" + gen::ipvfuture_near(r) + "]";
    case 7: return gen::bad_host(r);
    default: return gen::mutate(r, gen::host(r));
    }
}

static void r_routes(Src& r, Ctx& c)
{
    string h = some_host(r);
    unsigned w = r.draw(N_ROUTES), b = r.draw(9);
    c.add(h); c.add(w * 9 + b);
    route(w, b, h, c);
}

// the class after any history is that of the host text
static void r_hist(Src& r, Ctx& c)
{
    urls::url u; Parts p;
    if(! chk::state(r, c, u, p)) return;
    static Kind const ks[] = {SET_HOST, SET_ENC_HOST, SET_AUTHORITY, SET_ORIGIN, SET_URL, SET_PORT, SET_USERINFO, SET_SCHEME};
    size_t n = 1 + r.draw(10), changed = 0;
    string last;
    for(size_t i = 0; i < n; ++i)
    {
        Op o = r.draw(3) ? gen::op_of(r, p, ks[r.draw(8)]) : gen::op(r, p);
        if((o.k == SET_HOST || o.k == SET_ENC_HOST) && r.draw(2)) o.s = some_host(r);
        TRACE(c, gen::show(o));
        c.add(o.s); c.add(o.k);
        if(lib::try_call(u, o) == lib::O_OTHER || ! chk::sync(u, p)) return;
        is(u, p.host, "after " + gen::show(o) + " making " + quote(p.text()));
        if(p.host != last) { ++changed; last = p.host; }
    }
    if(changed) c.nontrivial();
    chk::shape_labels(c, p);
}

eng::Check const& eng::get_check()
{
    static Check const k{"C14",
        "Hosts: octets 0 to 1099 with 0 to 2 leading zeros in all four positions, alone and in an IPv6 tail; all combinations of 17 octet texts; 1.2. followed by all strings of up to 6 of { 1 2 5 . a }; "
        "IPv6 by structure (0-9 groups left and right, '::', ':::' or none, 7 tails, odd group width); all texts of up to 6 of { [ ] : 1 v . g }, and bracketed texts of up to 6 of { 0 f : . v 1 g }; "
        "random literals, near-literals and names. Each host comes in by ten routes (parse, set_encoded_url, _origin, _authority, _host, set_host, followed by other changes, copies and moves) into a URL "
        "holding another kind of host, plus random histories. host_type and encoded_host are compared with the reference; non-literals must be refused, except by set_host, which escapes. "
        "Non-trivial: the host is valid (or changed, in histories); distinct by host, route and previous URL.",
        {{"routes", r_routes, 1000000, 40000000}, {"histories", r_hist, 250000, 8000000}},
        {{"octets", e_oct, fam::n_oct, 0}, {"four octets", e_oct4, fam::n_oct4, 40000}, {"near ipv4", e_near, chk::count_strings(5, 6), 0},
         {"ipv6 structure", e_v6, fam::n_v6, 60000}, {"brackets", e_br, chk::count_strings(7, 6), 60000}, {"literals", e_lit, chk::count_strings(7, 6), 60000}}};
    return k;
}
