// C17: scheme names: validated, case-insensitive lookup, normalization
#include "check.hpp"
using namespace ref;

static char const* const kNames[] = {"ftp", "file", "http", "https", "ws", "wss"};
static urls::scheme const kIds[] = {urls::scheme::ftp, urls::scheme::file, urls::scheme::http, urls::scheme::https, urls::scheme::ws, urls::scheme::wss};

static string lower(string s) { for(auto& c : s) if(c >= 'A' && c <= 'Z') c = char(c + 32); return s; }

static void lookup(string const& s)
{
    Arg a(s);
    urls::scheme want = urls::scheme::unknown;
    string const l = lower(s);
    for(int i = 0; i < 6; ++i) if(l == kNames[i]) want = kIds[i];
    auto const got = urls::string_to_scheme(a);
    if(got != want) fail("string_to_scheme(" + quote(s) + ") is " + std::to_string(int(got)) + ", expected " + std::to_string(int(want)));
    if(urls::is_special(a) != (want != urls::scheme::unknown)) fail("is_special(" + quote(s) + ") is wrong");
    if(want != urls::scheme::unknown && S(urls::to_string(got)) != l) fail("to_string gives " + quote(S(urls::to_string(got))) + " for " + quote(s));
    // and back
    for(int i = 0; i < 6; ++i)
    {
        if(S(urls::to_string(kIds[i])) != kNames[i]) fail(string("to_string does not give ") + kNames[i]);
        if(urls::string_to_scheme(urls::to_string(kIds[i])) != kIds[i]) fail(string("to_string does not invert string_to_scheme for ") + kNames[i]);
    }
}

static void set(string const& s, char const* base, string const& what)
{
    urls::url u; u.set_encoded_url(base);
    Parts p; ref::parse(base, p);
    Op o; o.k = SET_SCHEME; o.s = s;
    Parts q = p;
    bool const ok = ref::apply(q, o);
    auto const out = lib::try_call(u, o);
    if((out == lib::O_OK) != ok || out == lib::O_OTHER) fail(what + ": set_scheme(" + quote(s) + ") on " + quote(base) + " " + lib::oname(out));
    chk::expect_parts(static_cast<urls::url const&>(u), q, lib::M_ALL, what + ": set_scheme(" + quote(s) + ") on " + quote(base));
}

static void normal(urls::url& u, Parts p, bool whole, string const& what)
{
    p.scheme = lower(p.scheme);
    for(int k = 0; k < 2; ++k)
    {
        urls::url_base& r = whole ? u.normalize() : u.normalize_scheme();
        if(&r != &u) fail(what + " returns another object");
        chk::expect_parts(static_cast<urls::url const&>(u), p, lib::M_ALL, what + (k ? " (second time)" : ""));
    }
}

// all letter cases of the six names
static void e_case(uint64_t i, Ctx& c)
{
    string s = kNames[i % 6]; i /= 6;
    for(auto& ch : s) { if(i & 1) ch = char(ch - 32); i >>= 1; }
    TRACE(c, s); c.nontrivial();
    lookup(s);
    set(s, "//h/p?q#f", "known name"); set(s, "", "known name");
    urls::url u; u.set_encoded_url("//H/P?Q#F"); u.set_scheme(s);
    Parts p; chk::sync(u, p);
    normal(u, p, true, "normalize of " + quote(p.text()));
}

// one byte of a name changed, inserted or removed
static void e_near(uint64_t i, Ctx& c)
{
    string s = kNames[i % 6]; i /= 6;
    if(i & 1) for(auto& ch : s) ch = char(ch - 32);
    i >>= 1;
    unsigned mode = i % 3; i /= 3;
    unsigned at = i % 6; i /= 6;
    if(at > s.size() || (mode != 1 && at == s.size())) return;
    if(mode == 0) s[at] = char(i);
    else if(mode == 1) s.insert(at, 1, char(i));
    else { s.erase(at, 1); if(i) return; }
    TRACE(c, quote(s)); c.nontrivial();
    lookup(s);
    set(s, "x:/p", "near a known name");
}

// all strings of up to two bytes; all short ones over the letters that matter
static void e_bytes(uint64_t i, Ctx& c)
{
    string s;
    if(i == 0) ;
    else if(i <= 256) s = string(1, char(i - 1));
    else { i -= 257; s = string(1, char(i & 255)) + char(i >> 8); }
    TRACE(c, quote(s));
    if(valid_scheme(s)) c.nontrivial();
    lookup(s); set(s, "//h", "two bytes"); set(s, "s:a", "two bytes");
}
static string const kAl("wsftphileHTWS1:", 15);
static void e_short(uint64_t i, Ctx& c) { string s = chk::nth_string(i, kAl); TRACE(c, quote(s)); if(valid_scheme(s)) c.nontrivial(); lookup(s); }

// schemes of every length in mixed case; near the names, too
static void e_lens(uint64_t i, Ctx& c)
{
    static char const* const head[] = {"", "http", "FTP", "wss"};
    string const s = head[i % 4] + chk::repeat("aB1+Zz", chk::nth_len(i / 4));
    TRACE(c, "a scheme of " << s.size() << " characters");
    c.nontrivial();
    lookup(s);
    set(s, "//h/P", "every length");
    set(s, "http://u@h/A?B#C", "every length");
    if(! valid_scheme(s)) return;
    urls::url u; u.set_encoded_url("//H/P?Q#F"); u.set_scheme(s);
    Parts p; chk::sync(u, p);
    normal(u, p, i & 1, "normalization with a scheme of " + std::to_string(s.size()) + " characters");
}

static void r_lookup(Src& r, Ctx& c)
{
    string s = r.draw(3) ? gen::scheme(r) : gen::raw(r);
    if(r.draw(2)) s = gen::mutate(r, s);
    TRACE(c, quote(s)); c.add(s);
    if(valid_scheme(s)) c.nontrivial();
    lookup(s);
    static char const* const b[] = {"", "//h/p", "a/b", "S:x:y", "s://u:p@h:1/a?b=c#d", "?q", "x:"};
    set(s, b[r.draw(7)], "random");
}

static void r_norm(Src& r, Ctx& c)
{
    urls::url u; Parts p;
    if(! chk::state(r, c, u, p)) return;
    if(r.draw(2))
    {
        Op o; o.k = SET_SCHEME; o.s = gen::scheme(r);
        if(r.draw(2)) for(auto& ch : o.s) if(alpha(ch) && r.draw(2)) ch = char(ch ^ 32);
        if(lib::try_call(u, o) == lib::O_OTHER || ! chk::sync(u, p)) return;
    }
    bool whole = r.draw(2);
    string const what = string(whole ? "normalize" : "normalize_scheme") + " of " + quote(p.text());
    TRACE(c, what); c.add(p.text()); c.add(uint64_t(whole));
    if(lower(p.scheme) != p.scheme) { c.nontrivial(); LABEL(c, "upper-case letters in the scheme"); }
    size_t const cap = u.capacity();
    normal(u, p, whole, what);
    if(u.capacity() != cap) fail(what + " changes the capacity");
    chk::shape_labels(c, p);
}

eng::Check const& eng::get_check()
{
    static Check const k{"C17",
        "All case mixtures of the six names; each name with every byte substituted or inserted at every position and with each byte removed; all strings of up to two bytes; all strings of up to 5 characters "
        "from 15 (thorough); schemes of every length to 1100 and around powers of two to 2^17; random schemes and near-schemes. string_to_scheme, is_special and to_string are compared with a table, set_scheme with the grammar on several URLs, normalize and normalize_scheme "
        "(twice) with ASCII lower-casing of the scheme alone, through all 31 observers. Non-trivial: a valid scheme, or one with upper-case letters for normalization; distinct by text.",
        {{"lookup", r_lookup, 800000, 20000000}, {"normalize", r_norm, 400000, 10000000}},
        {{"all cases", e_case, 6 * 32, 0}, {"near names", e_near, 6 * 2 * 3 * 6 * 256, 0}, {"two bytes", e_bytes, 257 + 65536, 0}, {"short", e_short, chk::count_strings(15, 5), 300000}, {"lengths", e_lens, chk::n_len * 4, 0}}};
    return k;
}
