// C08: a refused change leaves the URL untouched, whatever the reason
#include "check.hpp"
using namespace ref;
using lib::murl;

template<class U>
static Obs full(U& u)
{
    Obs o; lib::observe(static_cast<U const&>(u), o);
    Obs m; lib::observe(u, m, lib::M_LISTS);
    for(int f : {lib::F_NSEG, lib::F_SEGS, lib::F_NPARAM, lib::F_PARAMS}) o[f] += " / " + m[f];
    return o;
}

template<class U>
static void unchanged(U& u, Obs const& before, string const& what)
{
    chk::same(full(u), before, lib::M_ALL, what);
    if(u.data()[u.size()] != 0) fail(what + ": data() is no longer null-terminated");
}

// Tries the operation with every allocation failing in turn, then without failures.
static void step(murl& u, lib::Mem& m, Op const& o, Ctx& c)
{
    Parts p;
    if(! chk::sync(u, p)) return;
    string const what = gen::show(o) + " on " + quote(p.text());
    TRACE(c, what);
    c.add(o.s); c.add(o.k); c.add(o.i * 64 + o.j);
    Obs const before = full(u);
    size_t const cap = u.capacity();
    bool const want = ref::apply(p, o);
    for(long k = 0;; ++k)
    {
        if(k > 20) fail(what + " allocates more than 20 times");
        size_t live = m.live.size();
        m.fail_in = k; m.how = unsigned(k + o.k + o.s.size());
        auto const out = lib::try_call(u, o);
        bool const injected = m.fail_in == -1;
        m.fail_in = -1;
        if(! m.error.empty()) fail(what + ": " + m.error);
        if(injected)
        {
            if(m.how % 3 == 2) LABEL(c, "failure with the allocator's own exception");
            if(out != (m.how % 3 == 2 ? lib::O_FOREIGN : lib::O_BAD_ALLOC)) fail(what + " " + lib::oname(out) + " although its allocation #" + std::to_string(k) + " failed");
            unchanged(u, before, what + " after allocation #" + std::to_string(k) + " failed");
            if(u.capacity() != cap) fail(what + ": capacity() changed although the allocation failed");
            if(m.live.size() != live) fail(what + ": a failed allocation leaks or frees a block");
            LABEL(c, "allocation failure injected");
            c.nontrivial();
            continue;
        }
        if(out == lib::O_OK)
        {
            if(! want) fail(what + " is not refused; the URL becomes " + quote(S(u.encoded_url())));
            LABEL(c, "applied");
            string t = S(u.encoded_url());
            if(t != p.text()) LABEL(c, "result differs from the model (C07)");
        }
        else
        {
            if(out == lib::O_BAD_ALLOC) fail(what + " throws bad_alloc although no allocation failed");
            unchanged(u, before, what + " " + lib::oname(out));
            if(want) LABEL(c, "refused although permitted (C05)");
            else if(out != lib::O_INVALID_PART) fail(what + " " + lib::oname(out) + " instead of invalid_part");
            LABEL(c, "refused");
            c.nontrivial();
        }
        break;
    }
}

static void r_hist(Src& r, Ctx& c)
{
    lib::Mem m;
    {
        murl u{lib::Alloc<char>(m)};
        Parts p;
        if(chk::state(r, c, u, p))
        {
            c.add(p.text());
            size_t n = 1 + r.draw(6);
            for(size_t i = 0; i < n; ++i)
            {
                if(! chk::sync(u, p)) break;
                Op o = gen::op(r, p);
                chk::op_label(c, o.k);
                step(u, m, o, c);
            }
        }
        // still usable
        m.fail_in = -1;
        u.set_encoded_url("x://y:z@w:1/a/b?c=d&e#f");
        if(S(u.encoded_url()) != "x://y:z@w:1/a/b?c=d&e#f") fail("the url is not usable afterwards");
    }
    if(! m.error.empty()) fail(m.error);
    if(! m.live.empty()) fail("a block is leaked");
}

// changes that make the path ambiguous, from states built to be on the edge
static void r_ambiguous(Src& r, Ctx& c)
{
    static char const* const paths[] = {"a", "a/b", "a:b", "a:b/c", "//x", "//", "///", "/", "/x", "x/y:z", ":", "@:", "./a:b", "%3A", "a%3Ab/c:d"};
    Parts p;
    p.has_scheme = r.draw(2); if(p.has_scheme) p.scheme = gen::scheme(r);
    if(r.draw(2)) gen::authority(r, p);
    if(p.has_auth && r.draw(2)) { static char const* const hs[] = {"", "h"}; p.has_ui = p.has_pw = false; p.user.clear(); p.pw.clear(); p.host = gen::pick(r, hs); }
    p.path = r.draw(4) ? string(gen::pick(r, paths)) : gen::path(r, p.has_scheme, p.has_auth);
    if(! ref::path_ok(p.path, p.has_scheme, p.has_auth)) p.path = p.has_auth ? "/" + p.path : "q";
    if(r.draw(2)) { p.has_query = true; p.query = gen::query(r); }
    if(r.draw(3) == 0) { p.has_frag = true; p.frag = "f/?:@"; }
    string t = p.text();
    if(! ref::valid(t)) return;
    lib::Mem m;
    {
        murl u{lib::Alloc<char>(m)};
        TRACE(c, "set_encoded_url(" << quote(t) << ")");
        c.add(t);
        try { u.set_encoded_url(t); } catch(urls::invalid_part const&) { return; }
        static Kind const ks[] = {SET_SCHEME, SET_AUTHORITY, SET_ORIGIN, SET_USERINFO, SET_USERINFO_PART, SET_USER, SET_ENC_USER, SET_PW, SET_ENC_PW, SET_PW_PART, SET_HOST, SET_ENC_HOST,
            SET_PORT, SET_PORT_PART, SET_PORT_N, SET_PATH, SEG_INSERT, SEG_INSERT_ENC, SEG_REPLACE, SEG_REPLACE_ENC};
        size_t n = 1 + r.draw(4);
        for(size_t i = 0; i < n; ++i)
        {
            if(! chk::sync(u, p)) break;
            Op o = gen::op_of(r, p, ks[r.draw(20)]);
            if(r.draw(3) == 2 && o.k != SET_PORT_N) o.s.clear();
            if(r.draw(4) == 3 && o.k == SET_ORIGIN) o.s = "t:";
            chk::op_label(c, o.k);
            step(u, m, o, c);
        }
    }
    if(! m.error.empty()) fail(m.error);
    if(! m.live.empty()) fail("a block is leaked");
}

// construction under allocation failure
static void r_construct(Src& r, Ctx& c)
{
    string t = gen::any_url(r);
    TRACE(c, quote(t));
    c.add(t); c.nontrivial();
    Arg a(t);
    bool const want = ref::valid(t);
    lib::Mem m;
    for(long k = 0; k < 20; ++k)
    {
        m.fail_in = k; m.how = unsigned(k + t.size());
        bool threw = false, refused = false;
        try { murl u(a.view(), lib::Alloc<char>(m)); murl v(u); } catch(std::bad_alloc const&) { threw = true; } catch(lib::Foreign const&) { threw = true; } catch(urls::invalid_part const&) { refused = true; }
        bool injected = m.fail_in == -1;
        m.fail_in = -1;
        if(! m.error.empty()) fail(m.error);
        if(! m.live.empty()) fail("construction or copy of " + quote(t) + " leaks when allocation #" + std::to_string(k) + " fails");
        if(injected && ! threw) fail("a failed allocation is not reported when constructing " + quote(t));
        if(! injected && threw) fail("bad_alloc without a failed allocation");
        if(refused && want) { LABEL(c, "refused (C01)"); return; }
        if(injected) LABEL(c, "allocation failure injected");
        if(! injected) return;
    }
}

eng::Check const& eng::get_check()
{
    static Check const k{"C08",
        "Every call of generated histories (all 31 kinds, valid, malformed and ambiguous arguments; states parsed, modified, with and without spare capacity) is first run once "
        "per allocation it makes, with that allocation failing (by bad_alloc, an exception derived from it, or one of the allocator's own), and then without failure. After each throw all observers, both list interfaces, the terminator and the capacity must be as "
        "before and no block leaked; a call the model forbids must throw invalid_part. Non-trivial: at least one refusal or injected failure; distinct by history.",
        {{"histories", r_hist, 250000, 8000000}, {"ambiguous changes", r_ambiguous, 250000, 8000000}, {"construction", r_construct, 100000, 3000000}},
        {}};
    return k;
}
