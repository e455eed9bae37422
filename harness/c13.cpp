// C13: parameter lookup matches on the decoded key
#include "check.hpp"
using namespace ref;

template<class L>
static size_t position(L const& l, decltype(l.begin()) it)
{
    size_t k = 0;
    for(auto i = l.begin(); ; ++i, ++k) { if(i == it) return k; if(i == l.end()) return lib::npos; }
}

template<class L>
static void lookup(L const& l, std::vector<std::pair<string, string>> const& ps, string const& key, string const& what)
{
    size_t first = lib::npos, n = 0;
    for(size_t i = 0; i < ps.size(); ++i)
        if(decode(ps[i].first) == key) { if(n++ == 0) first = i; }
    string const value = n ? decode(ps[first].second) : string();
    Arg a(key);
    string const w = what + ", key " + quote(key) + ": ";
    if(l.contains(a) != (n != 0)) fail(w + "contains is " + (n ? "false" : "true"));
    size_t const got = l.count(a);
    if(got != n) fail(w + "count is " + std::to_string(got) + ", expected " + std::to_string(n));
    auto it = l.find(a);
    if(n == 0) { if(! (it == l.end())) fail(w + "find does not return end()"); }
    else
    {
        if(it == l.end()) fail(w + "find returns end()");
        size_t const pos = position(l, it);
        if(pos != first) fail(w + "find returns element " + std::to_string(pos) + ", expected " + std::to_string(first));
        if(S((*it).encoded_key()) != ps[first].first || it->value() != value) fail(w + "the iterator find returned has another key or value");
    }
    string const b = l[a];
    if(b != value) fail(w + "operator[] is " + quote(b) + ", expected " + quote(value));
    lib::Mem m;
    {
        bool threw = false;
        try
        {
            auto v = l.at(a);
            if(v != value) fail(w + "at is " + quote(v) + ", expected " + quote(value));
            auto x = l.at(a, lib::Alloc<char>(m));
            if(string(x.data(), x.size()) != value) fail(w + "at with an allocator is " + quote(string(x.data(), x.size())) + ", expected " + quote(value));
        }
        catch(urls::out_of_range const&) { threw = true; }
        if(threw != (n == 0)) fail(w + (threw ? "at throws out_of_range" : "at does not throw"));
    }
    if(! m.error.empty() || ! m.live.empty()) fail(w + "at misuses the allocator: " + m.error);
}

static void all(urls::url& u, Parts const& p, string const& key)
{
    auto const ps = p.params();
    string const t = p.text();
    Arg a(t);
    urls::url_view v(a);
    lookup(v.params(), ps, key, "url_view(" + quote(t) + ").params()");
    lookup(static_cast<urls::url const&>(u).params(), ps, key, "const url(" + quote(t) + ").params()");
    lookup(u.params(), ps, key, "url(" + quote(t) + ").params()");
}

static char const* const kTok[] = {"a", "b", "=", "&", "%61", "%6A"};
static char const* const kKeys[] = {"", "a", "b", "ab", "ba", "aa", "%61", "j", "&", "a&", "&a", "=", "a=", "A", "aj"};
static void e_small(uint64_t i, Ctx& c)
{
    string key = kKeys[i % 15]; i /= 15;
    string q; for(char x : chk::nth_string(i, "012345")) q += kTok[x - '0'];
    string t = "?" + q;
    Parts p; ref::parse(t, p);
    TRACE(c, quote(t) << " key " << quote(key));
    Arg a(t);
    urls::url u;
    try { u.set_encoded_url(a); } catch(urls::invalid_part const&) { return; }
    if(p.params().size() > 1) c.nontrivial();
    all(u, p, key);
}

// every byte as a key, literally and encoded, against every byte as the argument
static void e_bytes(uint64_t i, Ctx& c)
{
    unsigned k = i % 256, form = (i / 256) % 3;
    unsigned b = unsigned(i / 768);
    char h[4]; std::snprintf(h, sizeof h, form == 1 ? "%%%02X" : "%%%02x", b);
    if(form == 0 && (! allowed(C_QUERY, b) || b == '=')) return;
    Parts p; p.has_query = true; p.query = string("x=y&") + (form ? string(h) : string(1, char(b))) + "=v&z";
    string t = p.text();
    ref::parse(t, p);
    Arg a(t);
    urls::url u;
    try { u.set_encoded_url(a); } catch(urls::invalid_part const&) { return; }
    TRACE(c, quote(t) << " key " << k);
    c.nontrivial();
    all(u, p, string(1, char(k)));
}

// keys of every length: the same, one byte more, one less, another first, middle or last byte; in three spellings
static uint64_t const n_lens = chk::n_len * 6 * 3;
static void e_lens(uint64_t i, Ctx& c)
{
    unsigned const how = i % 6; i /= 6;
    unsigned const form = i % 3; i /= 3;
    size_t const n = chk::nth_len(i);
    string key = chk::repeat("abc", n), q;
    for(size_t k = 0; k < n; ++k)
        if(form == 0 || (form == 1 && k + 1 != n)) q += key[k]; else { char h[4]; std::snprintf(h, sizeof h, "%%%02x", unsigned(key[k])); q += h; }
    switch(how)
    {
    case 1: key += 'x'; break;
    case 2: if(n == 0) return; key.pop_back(); break;
    case 3: if(n == 0) return; key[0] = 'x'; break;
    case 4: if(n < 3) return; key[n / 2] = 'x'; break;
    case 5: if(n < 2) return; key[n - 1] = 'x'; break;
    default: break;
    }
    Parts p; p.has_query = true; p.query = "y=z&" + q + "=v&" + q + "&w";
    string const t = p.text();
    ref::parse(t, p);
    Arg a(t);
    urls::url u;
    try { u.set_encoded_url(a); } catch(urls::invalid_part const&) { return; }
    TRACE(c, "?y=z&k=v&k&w, k " << n << " bytes in spelling " << form << ", against a key " << how);
    c.nontrivial();
    all(u, p, key);
}

static string near(Src& r, string k)
{
    switch(r.draw(5))
    {
    case 0: if(! k.empty()) k.pop_back(); return k;
    case 1: return k + char(r.draw(256));
    case 2: if(! k.empty()) k[r.draw(uint32_t(k.size()))] ^= char(1 << r.draw(8)); return k;
    case 3: return k + string(1, '\0');
    default: return encode(C_REG, k);
    }
}

static void keys(Src& r, Ctx& c, urls::url& u, Parts const& p)
{
    auto ps = p.params();
    size_t n = 1 + r.draw(3);
    for(size_t i = 0; i < n; ++i)
    {
        string key;
        if(! ps.empty() && r.draw(8))
        {
            auto const& e = ps[r.draw(uint32_t(ps.size()))];
            switch(r.draw(6)) { case 0: case 1: case 2: key = decode(e.first); break; case 3: key = near(r, decode(e.first)); break; case 4: key = e.first; break; default: key = decode(e.second); }
        }
        else key = gen::bytes(r);
        TRACE(c, quote(p.text()) << " key " << quote(key));
        c.add(p.text()); c.add(key);
        size_t m = 0; for(auto& e : ps) if(decode(e.first) == key) ++m;
        if(m == 0) LABEL(c, "missing key"); else if(m == 1) LABEL(c, "found once"); else LABEL(c, "found repeatedly");
        if(m && encode(C_REG, key) != key) LABEL(c, "found, needs decoding");
        if(ps.size() > 1) c.nontrivial();
        all(u, p, key);
    }
}

static void r_any(Src& r, Ctx& c)
{
    urls::url u; Parts p;
    if(! chk::state(r, c, u, p)) return;
    try
    {
        string q = gen::query(r);
        if(r.draw(4)) { Arg a("?" + q); u.set_query_part(a); }
    }
    catch(urls::invalid_part const&) { return; }
    if(! chk::sync(u, p)) return;
    keys(r, c, u, p);
}

// lists in which keys recur, in different spellings
static void r_list(Src& r, Ctx& c)
{
    std::vector<string> ks;
    size_t n = 1 + r.draw(3);
    for(size_t i = 0; i < n; ++i) ks.push_back(gen::bytes(r, r.draw(4)));
    Parts p = gen::parts(r);
    p.has_query = true; p.query.clear();
    size_t m = 1 + r.draw(8);
    for(size_t i = 0; i < m; ++i)
    {
        if(i) p.query += '&';
        for(unsigned char ch : ks[r.draw(uint32_t(ks.size()))])
        {
            bool lit = allowed(C_QUERY, ch) && ch != '=' && ch != '&';
            if(lit && r.draw(3)) p.query += char(ch); else p.query += gen::triplet(r, ch);
        }
        if(r.draw(8)) { p.query += '='; p.query += gen::enc_n(r, C_REG, r.draw(4)); }
    }
    string t = p.text();
    Arg a(t);
    urls::url u;
    try { u.set_encoded_url(a); } catch(urls::invalid_part const&) { return; }
    if(! ref::parse(t, p)) return;
    keys(r, c, u, p);
}

// more parameters than a 16-bit counter holds
static void r_huge(Src& r, Ctx& c)
{
    Parts p; p.has_query = true; p.query = gen::many_params(r);
    string const t = p.text();
    Arg a(t);
    urls::url u;
    try { u.set_encoded_url(a); } catch(urls::invalid_part const&) { return; }
    auto const ps = p.params();
    string key = decode(ps[r.draw(uint32_t(ps.size()))].first);
    TRACE(c, ps.size() << " parameters, " << quote(t.substr(0, 40)) << " key " << quote(key));
    c.add(t); c.add(key);
    c.nontrivial();
    all(u, p, key);
}

eng::Check const& eng::get_check()
{
    static Check const k{"C13",
        "All queries of up to 5 tokens from { a b = & %61 %6A } with 15 keys; all 256 bytes as a key, literal, %XX and %xx, against all 256 bytes as the argument; keys of every length to 1100 and around powers of two to 2^17 against equal and nearly equal ones; random URLs and lists in which keys "
        "recur in different spellings, and lists of around 256, 32768 and 65536 parameters, looked up with decoded keys, near misses (one byte more, less or changed, a NUL appended, the encoded spelling) and arbitrary bytes. contains, count, find, [] "
        "and at (with and without allocator) of url_view, const url and url are compared with a linear scan of the reference's parameters. Non-trivial: at least two parameters; distinct by URL and key.",
        {{"states", r_any, 250000, 8000000}, {"recurring keys", r_list, 250000, 8000000}, {"huge", r_huge, 60, 1000}},
        {{"short queries", e_small, 15 * chk::count_strings(6, 5), 0}, {"bytes", e_bytes, 256 * 3 * 256, 0}, {"lengths", e_lens, n_lens, 0}}};
    return k;
}
