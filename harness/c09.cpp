// C09: buffer contract: null-terminated, size and capacity truthful
#include "check.hpp"
#include "big.hpp"
using namespace ref;
using lib::murl;

static void buffer(murl const& u, lib::Mem const& m, string const& what)
{
    size_t const n = u.size();
    char const* d = u.data();
    if(d == nullptr) fail(what + ": data() is null");
    if(u.capacity() < n) fail(what + ": capacity() " + std::to_string(u.capacity()) + " is less than size() " + std::to_string(n));
    auto it = m.live.find(const_cast<char*>(d));
    if(it != m.live.end())
    {
        if(it->second < u.capacity() + 1) fail(what + ": capacity() " + std::to_string(u.capacity()) + " does not fit the allocated block of " + std::to_string(it->second) + " bytes");
    }
    else if(n != 0) fail(what + ": data() is not a block from the allocator");
    if(d[n] != 0) fail(what + ": data()[size()] is not null");
    auto e = u.encoded_url();
    if(e.size() != n || (n && e.data() != d)) fail(what + ": encoded_url() is not data(), size()");
    if(n && std::memchr(d, 0, n)) fail(what + ": a null character inside the URL");
    if(std::strlen(d) != n) fail(what + ": strlen(data()) is not size()");
    if(m.live.size() > 1) fail(what + ": more than one live block");
}

static void step(murl& u, lib::Mem& m, Op const& o, Ctx& c)
{
    Parts p;
    bool const synced = chk::sync(u, p);
    string const what = gen::show(o) + " on " + quote(S(u.encoded_url())) + " with capacity " + std::to_string(u.capacity());
    TRACE(c, what);
    c.add(o.s); c.add(o.k); c.add(o.i * 64 + o.j);
    char const* d = u.data();
    size_t const cap = u.capacity(), allocs = m.allocs, frees = m.frees, n0 = u.size();
    auto const out = lib::try_call(u, o);
    buffer(u, m, "after " + what);
    if(! m.error.empty()) fail(what + ": " + m.error);
    bool const fits = u.size() <= cap;
    if(fits || out != lib::O_OK)
    {
        if(m.allocs != allocs || m.frees != frees) fail(what + " allocates although the result of size " + std::to_string(u.size()) + " fits");
        if(u.data() != d) fail(what + " moves data() although the result fits");
        if(u.capacity() != cap) fail(what + " changes capacity() although the result fits");
    }
    else { LABEL(c, "grew"); c.nontrivial(); }
    if(out == lib::O_OK && fits && u.size() > n0) { LABEL(c, "grew in place"); c.nontrivial(); }
    if(u.size() == cap) LABEL(c, "exactly full");
    (void)synced;
}

static void r_hist(Src& r, Ctx& c)
{
    lib::Mem m;
    m.fill = static_cast<unsigned char>("\xcd\xff\x00/"[r.draw(4)]);
    {
        murl u{lib::Alloc<char>(m)};
        buffer(u, m, "empty url");
        Parts p;
        if(chk::state(r, c, u, p))
        {
            buffer(u, m, "initially");
            c.add(p.text());
            size_t n = 1 + r.draw(8);
            for(size_t i = 0; i < n; ++i)
            {
                if(! chk::sync(u, p)) break;
                Op o = gen::op(r, p);
                chk::op_label(c, o.k);
                step(u, m, o, c);
            }
        }
    }
    if(! m.error.empty()) fail(m.error);
    if(! m.live.empty()) fail("a block is not returned by destruction");
}

// results of size capacity-2 .. capacity+2: every component grown to the edge
static void r_edge(Src& r, Ctx& c)
{
    lib::Mem m;
    {
        murl u{lib::Alloc<char>(m)};
        Parts p = gen::parts(r);
        p.path = gen::path(r, p.has_scheme, p.has_auth);
        string t = p.text();
        try { u.set_encoded_url(t); } catch(urls::invalid_part const&) { return; }
        TRACE(c, "set_encoded_url(" << quote(t) << ")");
        c.add(t);
        // give it spare capacity
        if(r.draw(4))
        {
            string big = "x:" + string(t.size() + r.draw(40), 'y');
            u.set_encoded_url(big); u.set_encoded_url(t);
            TRACE(c, "via a URL of " << big.size() << " characters");
        }
        size_t n = 1 + r.draw(4);
        for(size_t i = 0; i < n; ++i)
        {
            if(! chk::sync(u, p)) break;
            static Kind const ks[] = {SET_ENC_FRAG, SET_ENC_QUERY, SET_PATH, SET_ENC_USER, SET_ENC_PW, SET_ENC_HOST, SET_PORT, SET_SCHEME, SEG_INSERT_ENC, SEG_REPLACE_ENC,
                SET_FRAG, SET_QUERY, SET_USER, SET_PW, SET_HOST, SEG_INSERT, SEG_REPLACE, SET_URL, SET_AUTHORITY, SET_ORIGIN,
                SET_USERINFO, SET_USERINFO_PART, SET_PW_PART, SET_PORT_PART, SET_QUERY_PART, SET_FRAG_PART};
            Op o = gen::op_of(r, p, ks[r.draw(26)]);
            // find the length that makes the result just fit
            long target = long(u.capacity()) + long(r.draw(5)) - 2;
            Parts q = p; Op a = o; a.s = o.k == SET_PORT ? "1" : o.k == SET_PATH ? "/a" : o.k == SET_URL || o.k == SET_ORIGIN ? "s://a" : "a";
            if(o.k == SET_USERINFO_PART) a.s = "a@"; else if(o.k == SET_PW_PART) a.s = ":a"; else if(o.k == SET_PORT_PART) a.s = ":1";
            else if(o.k == SET_QUERY_PART) a.s = "?a"; else if(o.k == SET_FRAG_PART) a.s = "#a";
            if(! ref::apply(q, a)) { step(u, m, o, c); continue; }
            long d = target - long(q.text().size());
            if(d >= 0 && d < 100000)
            {
                o = a; o.s.insert(o.k == SET_USERINFO_PART ? 1 : o.s.size(), size_t(d), o.k == SET_PORT || o.k == SET_PORT_PART ? '1' : 'a');
            }
            step(u, m, o, c);
        }
    }
    if(! m.error.empty()) fail(m.error);
    if(! m.live.empty()) fail("a block is not returned by destruction");
}

// an allocator with a small max_size(): what fits is stored, what does not is refused by the allocator
static void r_limit(Src& r, Ctx& c)
{
    lib::Mem m;
    m.max = 2 + r.draw(r.draw(2) ? 300 : 60);
    TRACE(c, "the allocator gives at most " << m.max << " bytes");
    c.add(m.max);
    {
        murl u{lib::Alloc<char>(m)};
        Parts p;
        size_t n = 1 + r.draw(8);
        for(size_t i = 0; i < n; ++i)
        {
            if(! chk::sync(u, p)) break;
            Op o = gen::op(r, p);
            if(r.draw(3) == 2)
            {
                // aim at the limit
                static Kind const ks[] = {SET_ENC_FRAG, SET_ENC_QUERY, SET_PATH, SET_ENC_HOST, SEG_INSERT_ENC, SET_URL, SET_FRAG, SET_USER};
                Op a; a.k = ks[r.draw(8)]; a.s = a.k == SET_PATH ? "/a" : a.k == SET_URL ? "s://a" : "a";
                Parts q = p;
                if(ref::apply(q, a))
                {
                    long d = long(m.max) - 1 + long(r.draw(5)) - 2 - long(q.text().size());
                    if(d >= 0) { o = a; o.s += string(size_t(d), 'a'); }
                }
            }
            Parts q = p;
            bool const ok = ref::apply(q, o);
            string const what = gen::show(o) + " on " + quote(p.text()) + " with capacity " + std::to_string(u.capacity()) + " and max_size() " + std::to_string(m.max);
            TRACE(c, what);
            c.add(o.s); c.add(o.k);
            auto const out = lib::try_call(u, o);
            buffer(u, m, "after " + what);
            if(! m.error.empty()) fail(what + ": " + m.error);
            size_t const need = q.text().size();
            if(ok && out == lib::O_BAD_ALLOC && need < m.max) fail(what + ": the allocator is asked for more than max_size() although the result has " + std::to_string(need) + " characters");
            if(ok && need + 1 + 2 >= m.max) { LABEL(c, "near or beyond max_size()"); c.nontrivial(); }
            if(out == lib::O_BAD_ALLOC && S(u.encoded_url()) != p.text()) break; // C08
        }
    }
    if(! m.error.empty()) fail(m.error);
    if(! m.live.empty()) fail("a block is not returned by destruction");
}

// copies and moves keep the books
static void r_copies(Src& r, Ctx& c)
{
    lib::Mem m;
    {
        std::vector<std::unique_ptr<murl>> v;
        v.emplace_back(new murl{lib::Alloc<char>(m)});
        size_t n = 2 + r.draw(8);
        for(size_t i = 0; i < n; ++i)
        {
            size_t k = r.draw(uint32_t(v.size()));
            murl& u = *v[k];
            Parts p;
            if(! chk::sync(u, p)) break;
            switch(r.draw(5))
            {
            case 0: case 1: { Op o = gen::op(r, p); TRACE(c, "u" << k << ": " << gen::show(o)); c.add(o.s); c.add(o.k); lib::try_call(u, o); break; }
            case 2: TRACE(c, "copy u" << k); v.emplace_back(new murl(u)); break;
            case 3: { size_t j = r.draw(uint32_t(v.size())); TRACE(c, "u" << k << " = u" << j); u = *v[j]; break; }
            case 4: TRACE(c, "move u" << k); v.emplace_back(new murl(std::move(u))); c.nontrivial(); break;
            }
            if(r.draw(6) == 5 && v.size() > 1) { size_t j = r.draw(uint32_t(v.size())); TRACE(c, "destroy u" << j); v.erase(v.begin() + j); }
            for(auto& x : v)
            {
                char const* d = x->data(); size_t len = x->size();
                if(d[len] != 0 || std::strlen(d) != len || x->capacity() < len) fail("after a copy or move: data(), size() and capacity() disagree");
                auto it = m.live.find(const_cast<char*>(d));
                if(it == m.live.end() ? len != 0 : it->second < x->capacity() + 1) fail("after a copy or move: data() is not a block of the url's own allocator");
                for(auto& y : v) if(x != y && len && x->data() == y->data()) fail("two urls share a buffer");
            }
            if(! m.error.empty()) fail(m.error);
        }
    }
    if(! m.error.empty()) fail(m.error);
    if(! m.live.empty()) fail("a block is not returned by destruction");
}

eng::Check const& eng::get_check()
{
    static Check const k{"C09",
        "Histories on a url with a counting allocator that checks every deallocation and fills blocks with a pattern; a second generator aims every component at results of capacity-2 to "
        "capacity+2; a third mixes copies, moves and destruction; a fourth uses an allocator with a small max_size(). After every call: terminator, size, encoded_url, capacity against the real block, and no allocation or move of data() when "
        "the result fits. Non-trivial: the url grew in place or by reallocation, or was moved; distinct by history.",
        {{"histories", r_hist, 250000, 8000000}, {"capacity edge", r_edge, 250000, 8000000}, {"copies and moves", r_copies, 100000, 3000000},
         {"limited allocator", r_limit, 100000, 3000000}},
        {{"4 GiB", big::e_url, big::some(1), 0}}};
    return k;
}
