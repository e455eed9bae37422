// C03: decoding accessors return the exact percent-decoded bytes
#include "check.hpp"

template<class Str> static string str_of(Str const& s) { return string(s.data(), s.size()); }

template<class U, class A>
static void decoded(U const& u, A const& a, char const* who, bool def)
{
    auto one = [&](char const* f, sv enc, string const& got, bool verbatim) {
        string e = S(enc);
        string want = verbatim ? e : ref::decode(e);
        if(got != want) fail(string(who) + " " + f + "() of " + quote(e) + " returns " + quote(got) + ", expected " + quote(want));
    };
    one("user", u.encoded_user(), str_of(u.user(a)), false);
    one("password", u.encoded_password(), str_of(u.password(a)), false);
    one("query", u.encoded_query(), str_of(u.query(a)), false);
    one("fragment", u.encoded_fragment(), str_of(u.fragment(a)), false);
    bool lit = ref::host_kind(S(u.encoded_host())) != ref::H_NAME;
    one("host", u.encoded_host(), str_of(u.host(a)), lit);
    if(def)
    {
        one("user", u.encoded_user(), u.user(), false);
        one("password", u.encoded_password(), u.password(), false);
        one("query", u.encoded_query(), u.query(), false);
        one("fragment", u.encoded_fragment(), u.fragment(), false);
        one("host", u.encoded_host(), u.host(), lit);
    }
    size_t k = 0;
    auto sg = u.segments();
    for(auto it = sg.begin(); it != sg.end() && k < 200; ++it, ++k)
    {
        one("segment string", it->encoded_string(), str_of(it->string(a)), false);
        if(def) one("segment string", (*it).encoded_string(), (*it).string(), false);
    }
    k = 0;
    auto ps = u.params();
    for(auto it = ps.begin(); it != ps.end() && k < 200; ++it, ++k)
    {
        one("parameter key", it->encoded_key(), str_of(it->key(a)), false);
        one("parameter value", it->encoded_value(), str_of(it->value(a)), false);
        if(def)
        {
            one("parameter key", (*it).encoded_key(), (*it).key(), false);
            one("parameter value", (*it).encoded_value(), (*it).value(), false);
            std::pair<string const, string> pr = *it;
            one("parameter pair key", it->encoded_key(), pr.first, false);
            one("parameter pair value", it->encoded_value(), pr.second, false);
        }
    }
}

template<class U>
static void all(U const& u, char const* who, bool wide)
{
    decoded(u, std::allocator<char>(), who, true);
    lib::Mem m;
    m.fill = 0xcd;
    decoded(u, lib::Alloc<char>(m), who, false);
    if(! m.error.empty() || ! m.live.empty()) fail("allocator passed to the accessors: " + (m.error.empty() ? string("leak") : m.error));
    if(wide)
    {
        auto pool = std::unique_ptr<urls::static_pool<65536>>(new urls::static_pool<65536>);
        decoded(u, pool->allocator(), who, false);
    }
}

static void check(string const& s, Ctx& c, bool wide)
{
    Parts p;
    if(! ref::parse(s, p)) { LABEL(c, "not a URL (skipped)"); return; }
    TRACE(c, quote(s));
    Arg a(s);
    try
    {
        urls::url_view v(a);
        all(v, "url_view", wide);
        urls::url u{a.view()};
        all(static_cast<urls::url const&>(u), "const url", false);
        decoded(u, std::allocator<char>(), "url", true);
    }
    catch(urls::invalid_part const&) { LABEL(c, "refused (C01)"); return; }
    c.add(s);
    if(s.find('%') != string::npos) c.nontrivial();
    chk::shape_labels(c, p);
}

static void r_url(Src& r, Ctx& c)
{
    string t = gen::parts(r).text();
    check(t, c, t.size() < 1000);
}

// after modifications
static void r_hist(Src& r, Ctx& c)
{
    urls::url u; Parts p;
    if(! chk::state(r, c, u, p)) return;
    all(static_cast<urls::url const&>(u), "const url", false);
    decoded(u, std::allocator<char>(), "url", true);
    string t = S(u.encoded_url());
    c.add(t);
    if(t.find('%') != string::npos) c.nontrivial();
}

// every byte, four spellings, in every decodable component, alone, in front of and behind text
static void e_byte(uint64_t i, Ctx& c)
{
    static char const* const pos[][2] = { {"//", "@h"}, {"//u:", "@h"}, {"//", ""}, {"?", ""}, {"#", ""}, {"/", ""}, {"", ""}, {"?", "=v"}, {"?k=", "&x=y"}, {"?a=b&", ""}, {"/a/", "/b"}, {"//1.2.3.", ""} };
    unsigned b = i & 255; i >>= 8;
    unsigned m = i & 3; i >>= 2;
    unsigned around = i % 5; i /= 5;
    static char const up[] = "0123456789ABCDEF", lo[] = "0123456789abcdef";
    string t = "%"; t += (m & 1 ? lo : up)[b >> 4]; t += (m & 2 ? lo : up)[b & 15];
    static char const* const pre[] = {"", "x", "", "%00", "4"}, *const post[] = {"", "", "1", "%fF", "%41f"};
    check(string(pos[i][0]) + pre[around] + t + post[around] + pos[i][1], c, false);
}

// very long components
#if defined(VERIF_ASAN) || defined(VERIF_VALGRIND) || defined(__SANITIZE_THREAD__)
static uint64_t const n_long = 8 * 3 * 2;
#else
static uint64_t const n_long = 8 * 3 * 4;
#endif
static void e_long(uint64_t i, Ctx& c)
{
    static char const* const pos[][2] = { {"//", "@h"}, {"//u:", "@h"}, {"//", ""}, {"?", ""}, {"#", ""}, {"/", "/b"}, {"?", "=v"}, {"?k=", "&x=y"} };
    static char const* const unit[] = {"abcdefg", "%41", "a%2Fb%00cdefgh"};
    static size_t const size[] = {size_t(1) << 17, size_t(1) << 20, size_t(1) << 22, size_t(1) << 24};
    char const* const* const w = pos[i % 8]; i /= 8;
    string const x = unit[i % 3]; i /= 3;
    string t = w[0];
    size_t const n = size[i] + 5;
    alarm(600);
    while(t.size() < n) t += x;
    t += w[1];
    check(t, c, false);
}

eng::Check const& eng::get_check()
{
    static Check const k{"C03",
        "URLs: generated, after modification histories, and every byte 0-255 in its four hex spellings in twelve positions with five surroundings; components of up to 16 MiB. "
        "Every decoding accessor of url_view, const url and url, with the default, a counting and a pool allocator, is compared with an independent "
        "decoder applied to the encoded accessor. Non-trivial: contains a percent-triplet; distinct by the URL.",
        {{"generated", r_url, 250000, 8000000}, {"after histories", r_hist, 150000, 5000000}},
        {{"every byte", e_byte, 256 * 4 * 5 * 12, 0}, {"very long", e_long, n_long, 0}}};
    return k;
}
