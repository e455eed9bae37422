// C11: segment insert, erase and replace act as list edits on the path
#include "check.hpp"
using namespace ref;

static bool is_erase(Kind k) { return k == SEG_ERASE || k == SEG_ERASE_RANGE; }

// index the returned iterator must denote
static size_t next_index(Op const& o)
{
    return is_erase(o.k) ? o.i : o.i + 1;
}

static void verify(urls::url& u, Parts const& q, string const& what)
{
    if(S(u.encoded_url()) != q.text()) fail(what + " gives " + quote(S(u.encoded_url())) + ", expected " + quote(q.text()));
    chk::expect_parts(static_cast<urls::url const&>(u), q, lib::M_ALL & ~lib::M_DECODED, what);
    Obs a, b; lib::observe(u, a, lib::M_LISTS); lib::expect(q, b, lib::M_LISTS);
    chk::same(a, b, lib::M_LISTS, what + " (modifiable lists)");
}

// one edit at a fresh iterator. True when applied
static bool edit(urls::url& u, Parts& p, Op const& o)
{
    string const what = gen::show(o) + " on " + quote(p.text());
    Parts q = p;
    bool const ok = ref::apply(q, o);
    size_t ret = lib::npos;
    auto const out = lib::try_call(u, o, &ret);
    if(out == lib::O_OK && ! ok) fail(what + " is applied, giving " + quote(S(u.encoded_url())));
    if(out != lib::O_OK && ok) fail(what + " " + lib::oname(out));
    verify(u, q, what);
    if(ok && ret != next_index(o)) fail(what + " returns an iterator to element " + (ret == lib::npos ? string("nowhere") : std::to_string(ret)) + ", expected " + std::to_string(next_index(o)));
    p = q;
    return ok;
}

static Op seg_op(Src& r, Parts const& p) { return gen::op_of(r, p, Kind(SEG_INSERT + r.draw(6))); }

static void note(Ctx& c, Op const& o, Parts const& p, bool ok)
{
    chk::op_label(c, o.k);
    if(! ok) { LABEL(c, "refused"); return; }
    if(p.has_query || p.has_frag) LABEL(c, "with a query or fragment behind the path");
    auto n = p.segments().size();
    if(n == 0) LABEL(c, "on an empty path");
    else if(p.absolute()) LABEL(c, "on an absolute path"); else LABEL(c, "on a relative path");
    if(o.i == 0) LABEL(c, "at the front"); else if(o.i >= n) LABEL(c, "at the end"); else LABEL(c, "inside");
    if(o.s.empty() && ! is_erase(o.k)) LABEL(c, "an empty segment");
}

static void r_one(Src& r, Ctx& c)
{
    urls::url u; Parts p;
    if(! chk::state(r, c, u, p)) return;
    size_t n = 1 + r.draw(8);
    c.add(p.text());
    size_t done = 0;
    for(size_t i = 0; i < n; ++i)
    {
        Op o = seg_op(r, p);
        TRACE(c, gen::show(o));
        c.add(o.s); c.add(o.k); c.add(o.i * 64 + o.j);
        Parts const b = p;
        bool ok = edit(u, p, o);
        note(c, o, b, ok);
        done += ok;
    }
    if(done >= 2) c.nontrivial();
}

// edits mixed with other modifications of the same url
static void r_mix(Src& r, Ctx& c)
{
    urls::url u; Parts p;
    if(! chk::state(r, c, u, p)) return;
    c.add(p.text());
    size_t n = 2 + r.draw(10), done = 0;
    for(size_t i = 0; i < n; ++i)
    {
        Op o = r.draw(2) ? gen::op(r, p) : seg_op(r, p);
        TRACE(c, gen::show(o));
        c.add(o.s); c.add(o.k); c.add(o.i * 64 + o.j);
        if(o.k < SEG_INSERT)
        {
            if(lib::try_call(u, o) == lib::O_OTHER || ! chk::sync(u, p)) return;
            continue;
        }
        Parts const b = p;
        bool ok = edit(u, p, o);
        note(c, o, b, ok);
        done += ok;
    }
    if(done) c.nontrivial();
}

// one iterator carried through a chain of edits, moved by ++ and -- in between
static void r_chain(Src& r, Ctx& c)
{
    urls::url u; Parts p;
    if(! chk::state(r, c, u, p)) return;
    c.add(p.text());
    auto sg = u.segments();
    auto it = sg.begin(); size_t at = 0;
    size_t n = 2 + r.draw(14), done = 0;
    for(size_t i = 0; i < n; ++i)
    {
        auto v = p.segments();
        uint32_t w = r.draw(9);
        if(w == 0) { if(at < v.size()) { ++it; ++at; TRACE(c, "++it"); } }
        else if(w == 1) { if(at > 0) { --it; --at; TRACE(c, "--it"); } }
        else
        {
            Op o; 
            static Kind const ks[] = {SEG_INSERT, SEG_INSERT_ENC, SEG_REPLACE, SEG_REPLACE_ENC, SEG_ERASE, SEG_ERASE_RANGE, SEG_INSERT};
            o.k = ks[w - 2]; o.i = at; o.j = at;
            if(at == v.size() && (o.k == SEG_REPLACE || o.k == SEG_REPLACE_ENC || o.k == SEG_ERASE)) o.k = SEG_INSERT_ENC;
            auto last = it;
            if(o.k == SEG_ERASE_RANGE) { size_t m = r.draw(uint32_t(std::min<size_t>(v.size() - at, 3) + 1)); o.j = at + m; while(m--) ++last; }
            if(! is_erase(o.k)) o.s = gen::argument(r, o.k);
            Parts q = p;
            bool const ok = ref::apply(q, o);
            if(! ok && is_erase(o.k)) continue;         // known finding
            string const what = gen::show(o) + " with a kept iterator on " + quote(p.text());
            TRACE(c, gen::show(o) << " on " << quote(p.text()));
            c.add(o.s); c.add(o.k); c.add(o.i * 64 + o.j);
            Arg a(o.s);
            bool done_ = true;
            try
            {
                switch(o.k)
                {
                case SEG_INSERT: it = sg.insert(it, a); break;
                case SEG_INSERT_ENC: it = sg.insert_encoded(it, a); break;
                case SEG_REPLACE: it = sg.replace(it, a); break;
                case SEG_REPLACE_ENC: it = sg.replace_encoded(it, a); break;
                case SEG_ERASE: it = sg.erase(it); break;
                default: it = sg.erase(it, last); break;
                }
            }
            catch(urls::invalid_part const&) { done_ = false; }
            if(done_ != ok) fail(what + (done_ ? " is applied" : " is refused"));
            if(ok) { at = next_index(o); ++done; }
            Parts const b = p;
            p = q;
            verify(u, p, what);
            note(c, o, b, ok);
            if(! ok) continue;      // the iterator stays valid: nothing changed
        }
        // the kept list must be up to date and the kept iterator denote the expected element
        v = p.segments();
        auto const cp = sg;
        if(sg.size() != v.size() || cp.size() != v.size() || sg.empty() != v.empty()) fail("a kept segments() of " + quote(p.text()) + " reports " + std::to_string(sg.size()) + " elements");
        string const what = "the kept iterator, at element " + std::to_string(at) + " of " + quote(p.text());
        if((it == sg.end()) != (at == v.size())) fail(what + ": comparison with end() is wrong");
        if((it == sg.begin()) != (at == 0)) fail(what + ": comparison with begin() is wrong");
        if(at < v.size() && S((*it).encoded_string()) != v[at]) fail(what + ", denotes " + quote(S((*it).encoded_string())));
    }
    if(done >= 2) c.nontrivial();
}

// long lists
static void r_long(Src& r, Ctx& c)
{
    urls::url u; Parts p;
    size_t n = 20 + r.draw(100);
    for(size_t i = 0; i < n; ++i)
    {
        Op o = seg_op(r, p);
        if(is_erase(o.k) && r.draw(2)) { Op x; x.k = SEG_INSERT; x.s = gen::segment(r); x.i = r.draw(uint32_t(p.segments().size() + 1)); o = x; }
        TRACE(c, gen::show(o));
        c.add(o.s); c.add(o.k); c.add(o.i * 64 + o.j);
        Parts const b = p;
        note(c, o, b, edit(u, p, o));
    }
    c.nontrivial();
}

// lists longer than a 16-bit counter holds
static void r_huge(Src& r, Ctx& c)
{
    urls::url u; Parts p;
    p.has_auth = true; p.host = "h"; p.path = gen::many_segments(r);
    if(r.draw(2)) { p.has_query = true; p.query = "q/r"; }
    string const t = p.text();
    Arg a(t);
    try { u.set_encoded_url(a); } catch(urls::invalid_part const&) { return; }
    TRACE(c, p.segments().size() << " segments: " << quote(t.substr(0, 40)));
    c.add(t);
    size_t n = 1 + r.draw(3), done = 0;
    for(size_t i = 0; i < n; ++i)
    {
        Op o = seg_op(r, p);
        TRACE(c, gen::show(o));
        c.add(o.s); c.add(o.k); c.add(o.i * 64 + o.j);
        Parts const b = p;
        bool ok = edit(u, p, o);
        note(c, o, b, ok);
        done += ok;
    }
    if(done) c.nontrivial();
}

static char const* const kSeg[] = {"", "a", "b:c", "%2F"};
static char const* const kOrig[] = {"", "s:", "//h", "s://u@h:1"};
static char const* const kSuf[] = {"", "?q/r", "#f/g", "?x#y"};

static std::vector<Op> const& ops()
{
    static std::vector<Op> v;
    if(! v.empty()) return v;
    for(size_t i = 0; i < 4; ++i)
    {
        for(auto k : {SEG_INSERT, SEG_INSERT_ENC, SEG_REPLACE, SEG_REPLACE_ENC})
            for(auto s : {"", "n", "t:u", "/", "%41", "lengthened", "x@y", " "}) { Op o; o.k = k; o.i = i; o.s = s; v.push_back(o); }
        Op o; o.k = SEG_ERASE; o.i = i; v.push_back(o);
        for(size_t j = i; j < 4; ++j) { o.k = SEG_ERASE_RANGE; o.j = j; v.push_back(o); }
    }
    return v;
}

static bool in_range(Op const& o, Parts p)
{
    auto n = p.segments().size();
    switch(o.k)
    {
    case SEG_INSERT: case SEG_INSERT_ENC: return o.i <= n;
    case SEG_REPLACE: case SEG_REPLACE_ENC: return o.i < n;
    case SEG_ERASE: return o.i < n && ref::apply(p, o);     // the rest is a known finding
    default: return o.j <= n && ref::apply(p, o);
    }
}

// every edit (and every pair of edits) on every list of up to three segments
static void small(uint64_t i, unsigned depth, Ctx& c)
{
    string t = kOrig[i % 4]; i /= 4;
    string suf = kSuf[i % 4]; i /= 4;
    bool abs = i % 2; i /= 2;
    unsigned n = i % 4; i /= 4;
    std::vector<string> v;
    for(unsigned k = 0; k < 3; ++k) { if(k < n) v.push_back(kSeg[i % 4]); i /= 4; }
    bool const auth = t.find("//") != string::npos, scheme = t[0] == 's';
    if(! list_ok(v, abs, scheme, auth) || (auth && ! abs && n)) return;
    t += join(v, abs) + suf;
    Arg a(t);
    urls::url u; Parts p;
    if(! ref::parse(t, p)) return;
    try { u.set_encoded_url(a); } catch(urls::invalid_part const&) { return; }
    TRACE(c, quote(t));
    unsigned done = 0;
    for(unsigned k = 0; k < depth; ++k)
    {
        Op const& o = ops()[i % ops().size()]; i /= ops().size();
        if(! in_range(o, p)) return;
        TRACE(c, gen::show(o));
        Parts const b = p;
        bool ok = edit(u, p, o);
        note(c, o, b, ok);
        done += ok;
    }
    if(done == depth) c.nontrivial();
}
static void e_one(uint64_t i, Ctx& c) { small(i, 1, c); }
static void e_two(uint64_t i, Ctx& c) { small(i, 2, c); }

// An erase whose result no path can express (a known finding as far as the list goes): what lies
// outside the path stays, and the url goes on working
static void r_lost(Src& r, Ctx& c)
{
    Parts p = gen::parts(r);
    p.has_auth = p.has_ui = p.has_pw = p.has_port = false;
    p.user.clear(); p.pw.clear(); p.host.clear(); p.port.clear();
    std::vector<string> v;
    for(size_t i = 0, n = 1 + r.draw(6); i < n; ++i) v.push_back(r.draw(3) ? gen::segment(r).substr(0, 30) : "");
    for(auto& x : v) if(! valid_enc(C_PCHAR, x)) x = "b:c";
    bool const abs = r.draw(2);
    if(! abs && v[0].empty()) v[0] = "a";
    if(! list_ok(v, abs, p.has_scheme, false)) return;
    p.path = join(v, abs);
    string const t = p.text();
    Op o; o.k = r.draw(2) ? SEG_ERASE : SEG_ERASE_RANGE;
    o.i = 0; o.j = 1 + r.draw(uint32_t(v.size()));
    Parts q = p;
    if(! ref::parse(t, q) || ref::apply(q, o)) return;
    TRACE(c, quote(t) << " " << gen::show(o));
    c.add(t); c.add(o.k); c.add(o.j);
    lib::Mem m;
    {
        lib::murl u{lib::Alloc<char>(m)};
        Arg a(t);
        try { u.set_encoded_url(a); } catch(urls::invalid_part const&) { return; }
        size_t const cap = u.capacity();
        try { lib::call(u, o); } catch(urls::invalid_part const&) {}
        string const what = gen::show(o) + " on " + quote(t);
        c.nontrivial();
        if(S(u.scheme()) != p.scheme) fail(what + ": the scheme becomes " + quote(S(u.scheme())));
        if(S(u.query_part()) != p.query_part()) fail(what + ": the query becomes " + quote(S(u.query_part())));
        if(S(u.fragment_part()) != p.frag_part()) fail(what + ": the fragment becomes " + quote(S(u.fragment_part())));
        if(u.capacity() < u.size() || (cap >= u.size() && u.capacity() != cap)) fail(what + ": capacity() is " + std::to_string(u.capacity()));
        if(u.data()[u.size()] != 0 || std::memchr(u.data(), 0, u.size())) fail(what + ": not null-terminated at size()");
        if(S(u.encoded_url()).size() != u.size()) fail(what + ": encoded_url() has " + std::to_string(u.encoded_url().size()) + " of " + std::to_string(u.size()) + " characters");
        u.set_encoded_url(a);
        chk::expect_parts(static_cast<lib::murl const&>(u), p, lib::M_ALL, what + ", then set_encoded_url");
    }
    if(! m.error.empty()) fail(m.error);
    if(! m.live.empty()) fail("a block is not returned");
}

static int finding(string const& text)
{
    urls::url u{sv(text)};
    Parts p; ref::parse(text, p);
    auto v = p.segments(); v.erase(v.begin());
    auto sg = u.segments();
    sg.erase(sg.begin());
    std::vector<string> g;
    for(auto const& e : u.segments()) g.push_back(S(e.encoded_string()));
    bool good = g == v && u.segments().size() == v.size() && ref::valid(S(u.encoded_url()));
    if(good)
    {
        Parts q; ref::parse(S(u.encoded_url()), q);
        good = q.segments() == v && (v.empty() || q.absolute() == p.absolute());
    }
    return good ? 0 : 1;
}

eng::Check const& eng::get_check()
{
    static uint64_t const st = 4 * 4 * 2 * 4 * 64, n = ops().size();
    static Check const k{"C11",
        "Histories of segment edits (insert, insert_encoded, replace, replace_encoded, erase, erase of a range) on generated urls, alone, mixed with every other modification, chained through one kept "
        "iterator moved with ++ and --, on lists growing past 100 segments, and on lists of around 256, 32768 and 65536 segments; every edit, and pairs of edits, on every list of up to 3 segments from { '', a, b:c, %2F }, absolute and relative, in 4 "
        "origins and before 4 tails. After every edit the text and all observers must be those of the same edit on a list of strings, and the returned iterator must denote the documented element. After an erase that leaves a list no path can express, everything outside the path must be as before. "
        "Non-trivial: two applied edits (one when mixed with other operations); distinct by the whole history.",
        {{"edits", r_one, 150000, 5000000}, {"mixed", r_mix, 120000, 4000000}, {"chained", r_chain, 150000, 5000000}, {"long", r_long, 3000, 100000}, {"huge", r_huge, 80, 2000}, {"not expressible", r_lost, 60000, 1000000}},
        {{"one edit", e_one, st * n, 0}, {"two edits", e_two, st * n * n, 400000}},
        finding};
    return k;
}
