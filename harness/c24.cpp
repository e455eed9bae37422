// C24: work grows linearly, views never allocate
#include "check.hpp"
using namespace ref;

// Work is counted, not timed: every branch taken in the library and in this file (compiled with
// -fsanitize-coverage=trace-pc) is one unit, every 8 bytes handled by a C library function one more.
// Both counters are kept by count.cpp.
extern "C" unsigned long long g_work;
extern "C" unsigned long g_news;

struct Cost { unsigned long long work = 0; unsigned long news = 0; size_t allocs = 0, bytes = 0; string out; };

template<class F>
static void measure(Cost& c, lib::Mem* m, F f)
{
    size_t const a = m ? m->allocs : 0, b = m ? m->bytes : 0;
    auto const n0 = g_news; auto const w0 = g_work;
    f();
    c.work = g_work - w0; c.news = g_news - n0;
    if(m) { c.allocs = m->allocs - a; c.bytes = m->bytes - b; }
}

// A URL and an argument that grow with k
struct Family
{
    Parts p;            // fixed parts
    int comp = 0;       // the growing part: 0 scheme 1 user 2 password 3 host 4 port 5 path 6 query 7 fragment 8 none
    string pre, unit, post;
    string unit1;       // repeated behind unit in the same part, perhaps
    size_t n1 = 3000;   // the smallest size
    int comp2 = -1; string unit2;   // another growing part, perhaps
    string apre, aunit, apost; bool grows = false;
    static string rep(string const& a, string const& u, string const& z, size_t n)
    {
        string s = a;
        if(! u.empty()) { s.reserve(n + a.size() + u.size() + z.size()); while(s.size() < n) s += u; }
        return s + z;
    }
    Parts at(size_t n) const
    {
        Parts q = p;
        put(q, comp, unit1.empty() ? rep(pre, unit, post, n) : rep(pre, unit, "", n / 2) + rep("", unit1, post, n / 2));
        if(comp2 >= 0) put(q, comp2, rep(comp2 == 0 ? "a" : comp2 == 5 ? "/" : "", unit2, "", n));
        if(q.has_auth && ! q.path.empty() && q.path[0] != '/') q.path = "/" + q.path;
        return q;
    }
    static void put(Parts& q, int comp, string const& s)
    {
        switch(comp)
        {
        case 0: q.has_scheme = true; q.scheme = s; break;
        case 1: q.has_auth = q.has_ui = true; q.user = s; break;
        case 2: q.has_auth = q.has_ui = q.has_pw = true; q.pw = s; break;
        case 3: q.has_auth = true; q.host = s; break;
        case 4: q.has_auth = q.has_port = true; q.port = s; break;
        case 5: q.path = s; break;
        case 6: q.has_query = true; q.query = s; break;
        case 7: q.has_frag = true; q.frag = s; break;
        }
    }
    string arg(size_t n) const { return grows ? rep(apre, aunit, apost, n) : apre + aunit + apost; }
};

static string small(Src& r, Cls k) { string s; for(size_t i = 0, n = r.draw(4); i < n; ++i) s += gen::piece(r, k); return s; }

static string unit(Src& r, int comp)
{
    string s;
    for(size_t i = 0, n = 1 + r.draw(4); i < n; ++i)
        switch(comp)
        {
        case 0: s += "aZ0+-."[r.draw(6)]; break;
        case 1: s += gen::piece(r, C_USER); break;
        case 2: s += gen::piece(r, C_USERINFO); break;
        case 3: s += r.draw(3) ? gen::piece(r, C_REG) : string(1, "1.0:"[r.draw(3)]); break;
        case 4: s += char('0' + r.draw(10)); break;
        case 5: s += r.draw(2) ? "/" : gen::piece(r, C_PCHAR); break;
        case 6: s += r.draw(2) ? string(1, "&=&=?"[r.draw(5)]) : gen::piece(r, C_QUERY); break;
        default: s += gen::piece(r, C_QUERY); break;
        }
    return s;
}

static Family family(Src& r, bool bad = false)
{
    Family f;
    if(r.draw(2)) { f.p.has_scheme = true; f.p.scheme = "http"; }
    if(r.draw(2)) { f.p.has_auth = true; f.p.host = r.draw(2) ? "h" : "1.2.3.4"; if(r.draw(2)) { f.p.has_ui = true; f.p.user = "u"; } if(r.draw(2)) { f.p.has_port = true; f.p.port = "1"; } }
    if(r.draw(2)) f.p.path = r.draw(2) ? "/a" : "/a/b/";
    if(r.draw(2)) { f.p.has_query = true; f.p.query = "k=v&l"; }
    if(r.draw(2)) { f.p.has_frag = true; f.p.frag = "f"; }
    f.comp = r.draw(9);
    if(f.comp < 8) f.unit = unit(r, f.comp);
    switch(f.comp) { case 0: f.pre = "a"; break; case 5: f.pre = "/p"; break; case 1: f.pre = small(r, C_USER); break; case 6: f.pre = small(r, C_QUERY); f.post = small(r, C_QUERY); break; default: break; }
    if(f.comp == 3 && r.draw(4) == 3) { static char const* const a[] = {"[", "[::", "[v1.", "1.", "[1:"}; f.pre = gen::pick(r, a); }
    if(f.comp < 8 && r.draw(4) == 3)
    {
        f.comp2 = int(r.draw(8));
        if(f.comp2 == f.comp) f.comp2 = -1; else f.unit2 = unit(r, f.comp2);
    }
    if(f.comp < 8 && r.draw(6) == 5) f.unit1 = unit(r, f.comp);
    if(r.draw(24) == 23) f.n1 = r.draw(10) == 9 ? 300000 : 40000;
    if(bad && f.comp < 8 && r.draw(2)) { static char const* const a[] = {"%", "%4", "^", " ", "[", "]", "@", ":", "#", "?", "/", "%41", "\x80"}; f.post += gen::pick(r, a); }
    return f;
}

static string describe(Family const& f)
{
    return quote(f.at(0).text()) + " with " + quote(f.unit) + (f.unit1.empty() ? string() : " and then " + quote(f.unit1)) + " repeated in part " + std::to_string(f.comp) + (f.comp2 < 0 ? string() : " and " + quote(f.unit2) + " in part " + std::to_string(f.comp2));
}

// cost(n) for n = n1, 2 n1, 4 n1 must not grow much faster than n
static void linear(Cost const (&c)[3], size_t n1, string const& what)
{
    // (one of the sizes may need a new block where another fits)
    if(c[2].work > 3 * std::max(c[1].work, 2 * c[0].work) + 20000)
        fail(what + " takes " + std::to_string(c[0].work) + ", " + std::to_string(c[1].work) + " and " + std::to_string(c[2].work) +
            " steps for inputs of " + std::to_string(n1) + ", " + std::to_string(2 * n1) + " and " + std::to_string(4 * n1) + " bytes: more than linear");
}

static void r_parse(Src& r, Ctx& c)
{
    Family f = family(r, true);
    uint32_t how = r.draw(3);
    TRACE(c, (how == 0 ? "url_view" : how == 1 ? "url" : "set_encoded_url") << " of " << describe(f));
    c.add(f.at(20).text()); c.add(how);
    Cost k[3]; bool ok = true;
    for(int i = 0; i < 3; ++i)
    {
        string t = f.at(f.n1 << i).text();
        Arg a(t);
        lib::Mem m;
        lib::murl u{lib::Alloc<char>(m)};
        measure(k[i], &m, [&]{
            try
            {
                if(how == 0) { urls::url_view v{sv(a)}; }
                else if(how == 1) { lib::murl x(sv(a), lib::Alloc<char>(m)); }
                else u.set_encoded_url(a);
            }
            catch(urls::invalid_part const&) { ok = false; }
        });
        if(how == 0 && ok && k[i].news) fail("parsing into a url_view allocates memory");
        if(how != 0 && ok && k[i].bytes > 16 * t.size() + 4096) fail("holding a URL of " + std::to_string(t.size()) + " bytes requests " + std::to_string(k[i].bytes) + " bytes");
        if(how != 0 && k[i].allocs > 4) fail("parsing takes " + std::to_string(k[i].allocs) + " allocations");
    }
    if(ok) LABEL(c, "accepted"); else LABEL(c, "refused");
    c.nontrivial();
    linear(k, f.n1, "parsing");
}

template<class U>
static void encoded(U const& u, size_t& sum)
{
    sum += u.encoded_url().size() + u.encoded_origin().size() + u.scheme().size() + u.has_authority() + u.encoded_authority().size()
        + u.has_userinfo() + u.encoded_userinfo().size() + u.userinfo_part().size() + u.encoded_user().size() + u.encoded_password().size()
        + size_t(u.host_type()) + u.encoded_host_and_port().size() + u.encoded_host().size() + u.port().size() + u.port_part().size()
        + u.encoded_path().size() + u.encoded_query().size() + u.query_part().size() + u.encoded_fragment().size() + u.fragment_part().size()
        + u.size() + u.segments().size() + u.params().size();
}

template<class U>
static void lists(U& u, uint32_t how, size_t& sum)
{
    if(how == 0) { auto l = u.segments(); auto e = l.end(); for(auto it = l.begin(); it != e; ++it) sum += (*it).encoded_string().size(); }
    if(how == 1) { auto l = u.segments(); auto b = l.begin(); auto it = l.end(); while(it != b) { --it; sum += (*it).encoded_string().size(); } }
    if(how == 2) { auto l = u.params(); auto e = l.end(); for(auto it = l.begin(); it != e; ++it) sum += (*it).encoded_key().size(); }
    if(how == 3) { auto l = u.params(); auto b = l.begin(); auto it = l.end(); while(it != b) { --it; sum += (*it).encoded_value().size(); } }
}

template<class U>
static void decoded(U const& u, size_t& sum)
{
    sum += u.user().size() + u.password().size() + u.host().size() + u.query().size() + u.fragment().size();
}

template<class U>
static void look(U& u, string const& key, size_t& sum)
{
    auto l = u.params();
    sv k(key.data(), key.size());
    sum += l.contains(k) + l.count(k) + l[k].size();
    if(l.find(k) != l.end()) ++sum;
    try { sum += l.at(k).size(); } catch(urls::out_of_range const&) {}
}

static void r_observe(Src& r, Ctx& c)
{
    Family f = family(r);
    uint32_t on = r.draw(3), how = r.draw(7);
    if(how >= 1 && how <= 4 && r.draw(4)) { f.comp = how <= 2 ? 5 : 6; f.unit = unit(r, f.comp); f.pre = how <= 2 ? "/" : ""; f.post = ""; }
    static char const* const names[] = {"the encoded observers", "iterating segments()", "iterating segments() backwards", "iterating params()", "iterating params() backwards", "the decoding observers", "looking up a parameter"};
    string key = small(r, C_QUERY), kunit;
    if(r.draw(2)) key = "zz";
    if(how == 6 && r.draw(2)) kunit = r.draw(2) ? small(r, C_QUERY) + "a" : ref::decode(f.unit);
    TRACE(c, names[how] << " of a " << (on == 0 ? "url_view" : on == 1 ? "const url" : "url") << ": " << describe(f) << (how < 6 ? string() : ", key " + quote(key) + " then " + quote(kunit) + " repeated"));
    c.add(f.at(20).text()); c.add(on * 8 + how); c.add(key); c.add(kunit);
    Cost k[3]; size_t sum = 0;
    for(int i = 0; i < 3; ++i)
    {
        string t = f.at(f.n1 << i).text();
        Arg a(t);
        lib::Mem m;
        lib::murl u{lib::Alloc<char>(m)};
        std::unique_ptr<urls::url_view> v;
        try { u.set_encoded_url(a); v.reset(new urls::url_view{sv(a)}); } catch(urls::invalid_part const&) { LABEL(c, "refused"); return; }
        lib::murl const& cu = u;
        string const lk = Family::rep(key, kunit, "", f.n1 << i);
        measure(k[i], &m, [&]{
            if(how == 0) { if(on == 0) encoded(*v, sum); else if(on == 1) encoded(cu, sum); else encoded(u, sum); }
            else if(how <= 4) { if(on == 0) lists(*v, how - 1, sum); else if(on == 1) lists(cu, how - 1, sum); else lists(u, how - 1, sum); }
            else if(how == 5) { if(on == 0) decoded(*v, sum); else decoded(cu, sum); }
            else { if(on == 0) look(*v, lk, sum); else if(on == 1) look(cu, lk, sum); else look(u, lk, sum); }
        });
        if(how <= 4 && (k[i].news || k[i].allocs)) fail(string(names[how]) + " allocate memory");
        if(k[i].allocs) fail(string(names[how]) + " allocate in the url's own storage");
    }
    c.nontrivial();
    linear(k, f.n1, names[how]);
}

// the same call on states and with arguments of growing size
static void r_modify(Src& r, Ctx& c)
{
    Family f = family(r);
    Kind kind = Kind(r.draw(N_KINDS));
    f.grows = r.draw(2);
    int ac = f.comp < 8 ? f.comp : 6;
    switch(kind)
    {
    case SET_SCHEME: ac = 0; break;
    case SET_USER: case SET_ENC_USER: ac = 1; break;
    case SET_PW: case SET_ENC_PW: case SET_USERINFO: ac = 2; break;
    case SET_PW_PART: ac = 2; f.apre = ":"; break;
    case SET_USERINFO_PART: ac = 2; f.apost = "@"; break;
    case SET_HOST: case SET_ENC_HOST: case SET_AUTHORITY: ac = 3; break;
    case SET_PORT: ac = 4; break;
    case SET_PORT_PART: ac = 4; f.apre = ":"; break;
    case SET_PATH: ac = 5; f.apre = "/p"; break;
    case SEG_INSERT: case SEG_INSERT_ENC: case SEG_REPLACE: case SEG_REPLACE_ENC: ac = 1; break;
    case SET_QUERY: case SET_ENC_QUERY: ac = 6; break;
    case SET_QUERY_PART: ac = 6; f.apre = "?"; break;
    case SET_FRAG: case SET_ENC_FRAG: ac = 7; break;
    case SET_FRAG_PART: ac = 7; f.apre = "#"; break;
    case SET_ORIGIN: case SET_URL: ac = 3; f.apre = "http://"; break;
    default: break;
    }
    if(r.draw(8)) f.aunit = unit(r, ac);
    uint32_t where = r.draw(3), span = r.draw(3);
    TRACE(c, kind_name(kind) << " on " << describe(f) << ", argument " << quote(f.arg(0)) << (f.grows ? " repeated" : ""));
    c.add(f.at(20).text()); c.add(f.arg(20)); c.add(kind * 9 + where * 3 + span);
    Cost k[3];
    for(int i = 0; i < 3; ++i)
    {
        size_t const n = f.n1 << i;
        Parts p = f.at(n);
        string t = p.text();
        Arg a(t);
        lib::Mem m;
        lib::murl u{lib::Alloc<char>(m)};
        try { u.set_encoded_url(a); } catch(urls::invalid_part const&) { LABEL(c, "refused"); return; }
        Op o; o.k = kind; o.s = f.arg(n); o.n = 8080;
        if(kind >= SEG_INSERT)
        {
            size_t const ns = u.segments().size();
            if(ns != p.segments().size()) return;
            o.i = where == 0 ? 0 : where == 1 ? ns / 2 : ns;
            if(kind != SEG_INSERT && kind != SEG_INSERT_ENC && kind != SEG_ERASE_RANGE && o.i == ns) { if(ns == 0) return; o.i = ns - 1; }
            o.j = span == 0 ? o.i : span == 1 ? o.i + (ns - o.i) / 2 : ns;
            Parts q = p;
            if((kind == SEG_ERASE || kind == SEG_ERASE_RANGE) && ! ref::apply(q, o)) return;
        }
        bool ok = true;
        measure(k[i], &m, [&]{
            try { lib::call(u, o); } catch(urls::invalid_part const&) { ok = false; }
        });
        size_t const size = t.size() + 3 * o.s.size();
        if(k[i].allocs > 6) fail(string(kind_name(kind)) + " takes " + std::to_string(k[i].allocs) + " allocations");
        if(k[i].bytes > 24 * size + 4096) fail(string(kind_name(kind)) + " on " + std::to_string(t.size()) + " bytes with an argument of " + std::to_string(o.s.size()) + " requests " + std::to_string(k[i].bytes) + " bytes");
        if(i == 2) { if(ok) chk::op_label(c, kind); else LABEL(c, "call refused"); }
    }
    c.nontrivial();
    linear(k, f.n1, kind_name(kind));
}

static void r_copy(Src& r, Ctx& c)
{
    Family f = family(r);
    uint32_t how = r.draw(3), old = r.draw(3);
    static char const* const names[] = {"copy construction", "copy assignment", "move construction"};
    TRACE(c, names[how] << " from " << describe(f) << (how == 1 ? old == 0 ? " to an empty url" : old == 1 ? " to a small url" : " to one as large" : ""));
    c.add(f.at(20).text()); c.add(how * 3 + old);
    Cost k[3];
    for(int i = 0; i < 3; ++i)
    {
        string t = f.at(f.n1 << i).text();
        Arg a(t);
        lib::Mem m;
        lib::murl u{lib::Alloc<char>(m)}, w{lib::Alloc<char>(m)};
        try { u.set_encoded_url(a); if(old == 1) w.set_encoded_url("http://u:p@h:1/a/b?c#d"); if(old == 2) w.set_encoded_url(a); }
        catch(urls::invalid_part const&) { LABEL(c, "refused"); return; }
        measure(k[i], &m, [&]{
            if(how == 0) { lib::murl x(u); }
            else if(how == 1) w = u;
            else { lib::murl x(std::move(u)); }
        });
        if(k[i].allocs > 4) fail(string(names[how]) + " takes " + std::to_string(k[i].allocs) + " allocations");
        if(k[i].bytes > 16 * t.size() + 4096) fail(string(names[how]) + " of a URL of " + std::to_string(t.size()) + " bytes requests " + std::to_string(k[i].bytes) + " bytes");
    }
    c.nontrivial();
    linear(k, f.n1, names[how]);
}

// growing a url step by step moves it a logarithmic number of times
static void r_grow(Src& r, Ctx& c)
{
    lib::Mem m;
    lib::murl u{lib::Alloc<char>(m)};
    uint32_t how = r.draw(8);
    if(how > 4) how = 4;
    static Kind const ks[] = {SET_ENC_HOST, SET_ENC_QUERY, SET_PATH, SET_ENC_FRAG, SET_ENC_USER, SET_ENC_PW, SET_SCHEME, SET_PORT, SET_USER, SET_PW, SET_HOST, SET_QUERY, SET_FRAG, SET_URL, SET_AUTHORITY, SET_ORIGIN,
        SET_USERINFO, SET_USERINFO_PART, SET_PW_PART, SET_PORT_PART, SET_QUERY_PART, SET_FRAG_PART, SEG_REPLACE, SEG_REPLACE_ENC};
    Kind const kind = ks[r.draw(24)];
    string x = "a";
    for(size_t i = 0, n = r.draw(5); i < n; ++i) x += gen::piece(r, C_USER);
    size_t const steps = 200 + r.draw(600);
    static char const* const names[] = {"inserting segments at the end", "inserting segments at the front", "lengthening the query", "lengthening host, query and path in turn", "calls with a longer argument each"};
    TRACE(c, names[how] << (how == 4 ? string(" (") + kind_name(kind) + ")" : string()) << ", " << quote(x) << " " << steps << " times");
    c.add(x); c.add(how * 10000 + steps); c.nontrivial();
    c.add(how == 4 ? kind : 0);
    string q = "a";
    Arg xa(x);
    if(how == 4) u.set_encoded_url("//h/p");
    if(how == 4) q = kind == SET_PORT || kind == SET_PORT_PART ? "1" : "a";
    for(size_t i = 0; i < steps; ++i)
    {
        try
        {
            uint32_t h = how == 3 ? uint32_t(i % 3) : how;
            if(how == 4)
            {
                Op o; o.k = kind;
                if(kind == SET_PORT || kind == SET_PORT_PART) q += "123"; else if(kind == SET_SCHEME) q += "x-1"; else q += x;
                switch(kind)
                {
                case SET_PATH: o.s = "/" + q; break; case SET_URL: case SET_ORIGIN: o.s = "s://" + q; break; case SET_USERINFO_PART: o.s = q + "@"; break;
                case SET_PW_PART: case SET_PORT_PART: o.s = ":" + q; break; case SET_QUERY_PART: o.s = "?" + q; break; case SET_FRAG_PART: o.s = "#" + q; break;
                default: o.s = q;
                }
                lib::call(u, o);
            }
            else if(how == 3) { q += 'x'; if(h == 0) u.set_encoded_host(q); else if(h == 1) u.set_encoded_query(q); else u.set_encoded_path("/" + q); }
            else if(h == 0) u.segments().insert_encoded(u.segments().end(), xa);
            else if(h == 1) u.segments().insert_encoded(u.segments().begin(), xa);
            else { q += x; u.set_encoded_query(q); }
        }
        catch(urls::invalid_part const&) { LABEL(c, "refused"); return; }
    }
    // 2^k bytes take at most about k moves when each at least half again enlarges the buffer
    size_t bits = 1; while((size_t(1) << bits) < u.size()) ++bits;
    if(m.allocs > 6 * bits + 20) fail(string(names[how]) + " up to " + std::to_string(u.size()) + " bytes in " + std::to_string(steps) + " steps takes " + std::to_string(m.allocs) + " allocations");
}

eng::Check const& eng::get_check()
{
    static Check const c{"C24",
        "A random URL with one or two parts made of one random unit, or two in turn, repeated (often ending in a byte that makes it invalid), and for calls and lookups a fixed or growing argument, is processed (parsed, observed, walked, looked up in, modified, copied) at 3000, "
        "6000 and 12000 bytes (some at 40000 and 300000 and their multiples); branches taken and bytes handled by C library functions are counted (no clock), and the count may at most triple when the size "
        "doubles. Parsing a view, the encoded observers and iteration may not allocate; a call takes a bounded number of blocks of proportional size; growth in steps takes a logarithmic number. "
        "Non-trivial: the whole measurement was made.",
        {
            {"parse", r_parse, 12000, 400000},
            {"observe", r_observe, 16000, 500000},
            {"modify", r_modify, 30000, 900000},
            {"copy", r_copy, 4000, 100000},
            {"grow", r_grow, 300, 6000},
        },
        {}};
    return c;
}
