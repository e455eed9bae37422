// C16: copies are equal and independent; a moved-to url is the original
#include "check.hpp"
#include <algorithm>
#include <memory>
using namespace ref;

template<class U>
static Obs all(U& u) { Obs o; lib::observe(static_cast<U const&>(u), o); return o; }

template<class U>
static void same_as(U& u, Obs const& want, string const& what)
{
    chk::same(all(u), want, lib::M_ALL, what);
    Obs m; lib::observe(u, m, lib::M_LISTS);
    chk::same(m, want, lib::M_LISTS, what + " (modifiable lists)");
    if(u.size() && S(sv(u.data(), u.size())) != want[lib::F_URL]) fail(what + ": data() differs from encoded_url()");
}

template<class U>
static bool changes(Src& r, Ctx& c, U& u, size_t n, char const* who)
{
    Parts p;
    if(! chk::sync(u, p)) return false;
    for(size_t i = 0; i < n; ++i)
    {
        Op o = gen::op(r, p);
        TRACE(c, who << "." << gen::show(o));
        c.add(o.s); c.add(o.k);
        if(lib::try_call(u, o) == lib::O_OTHER) return false;
        if(! chk::sync(u, p)) return false;
    }
    return true;
}

// the url must take any modification as a fresh one does
template<class U>
static void usable(Src& r, Ctx& c, U& u, string const& what)
{
    Parts p; chk::sync(u, p);
    size_t n = 1 + r.draw(4);
    for(size_t i = 0; i < n; ++i)
    {
        Op o = gen::op(r, p);
        TRACE(c, "then " << gen::show(o));
        Parts q = p;
        bool ok = ref::apply(q, o);
        if((lib::try_call(u, o) == lib::O_OK) != ok) fail(what + ": " + gen::show(o) + (ok ? " is refused" : " is accepted"));
        p = q;
        chk::expect_parts(static_cast<U const&>(u), p, lib::M_ALL, what + " and " + gen::show(o));
    }
}

// sometimes b holds nearly what a holds
static void near(Src& r, Ctx& c, lib::murl& b, string const& t, Parts& q)
{
    if(r.draw(4) < 3) return;
    string s = gen::nudge(r, t);
    Parts n;
    if(! ref::parse(s, n)) return;
    TRACE(c, "b.set_encoded_url(" << quote(s) << ")");
    b.set_encoded_url(s); q = n;
    LABEL(c, "near target");
}

static void clean(lib::Mem& m, string const& what)
{
    if(! m.error.empty()) fail(what + ": " + m.error);
    if(! m.live.empty()) fail(what + ": " + std::to_string(m.live.size()) + " blocks leaked");
}

static void r_copy(Src& r, Ctx& c)
{
    lib::Mem ma, mb;
    {
        lib::murl a{lib::Alloc<char>(ma)};
        Parts p;
        if(! chk::state(r, c, a, p)) return;
        c.add(p.text());
        chk::shape_labels(c, p);
        if(! p.text().empty()) c.nontrivial();
        Obs const oa = all(a);
        uint32_t how = r.draw(5);
        c.add(how);
        if(how == 0)
        {
            LABEL(c, "copy construction");
            TRACE(c, "url b(a);");
            lib::murl b(a);
            same_as(b, oa, "copy-constructed"); same_as(a, oa, "source of the copy construction");
            if(! changes(r, c, b, 1 + r.draw(3), "b")) return;
            same_as(a, oa, "source, after changing the copy");
            Obs const ob = all(b);
            if(! changes(r, c, a, 1 + r.draw(3), "a")) return;
            same_as(b, ob, "copy, after changing the source");
            { lib::murl t(b); same_as(t, ob, "second copy"); }
            same_as(b, ob, "after destroying a copy");
        }
        else if(how == 1)
        {
            LABEL(c, "copy assignment");
            lib::murl b{lib::Alloc<char>(mb)};
            Parts q;
            if(! chk::state(r, c, b, q)) return;
            near(r, c, b, p.text(), q);
            c.add(q.text());
            TRACE(c, "b = a;");
            auto& ret = (b = a);
            if(&ret != &b) fail("assignment returns another object");
            same_as(b, oa, "assigned to a url that held " + quote(q.text())); same_as(a, oa, "source of the assignment");
            if(! changes(r, c, b, 1 + r.draw(3), "b")) return;
            same_as(a, oa, "source, after changing the copy");
            Obs const ob = all(b);
            if(! changes(r, c, a, 1 + r.draw(3), "a")) return;
            same_as(b, ob, "copy, after changing the source");
        }
        else if(how == 2)
        {
            LABEL(c, "self-assignment");
            TRACE(c, "a = a;");
            lib::murl& alias = a;
            auto const* d = a.data();
            a = alias;
            same_as(a, oa, "after self-assignment");
            (void)d;
            usable(r, c, a, "after self-assignment");
        }
        else if(how == 3)
        {
            LABEL(c, "move construction");
            TRACE(c, "url b(std::move(a));");
            size_t const n = ma.allocs;
            lib::murl b(std::move(a));
            if(ma.allocs != n) LABEL(c, "move allocated");
            same_as(b, oa, "move-constructed");
            Parts e;
            if(! chk::sync(a, e)) fail("the moved-from url is not a valid URL: " + quote(S(a.encoded_url())));
            chk::expect_parts(static_cast<lib::murl const&>(a), e, lib::M_ALL, "moved-from url");
            usable(r, c, a, "moved-from url");
            same_as(b, oa, "moved-to url, after using the source");
            Obs const x = all(a);
            usable(r, c, b, "moved-to url");
            same_as(a, x, "moved-from url, after using the target");
        }
        else
        {
            LABEL(c, "chain of copies and moves");
            // a url reused for several values; moved-from ones are assigned to
            lib::murl b(std::move(a));
            TRACE(c, "url b(std::move(a)); a = b; b = a; url d(std::move(b)); b = d;");
            a = b; same_as(a, oa, "assigned to a moved-from url"); same_as(b, oa, "source of that assignment");
            if(! changes(r, c, b, 2, "b")) return;
            Obs const ob = all(b);
            b = a; same_as(b, oa, "assigned back"); (void)ob;
            lib::murl d(std::move(b)); same_as(d, oa, "moved on");
            b = d; same_as(b, oa, "refilled");
            if(! changes(r, c, d, 1 + r.draw(3), "d")) return;
            same_as(b, oa, "after changing the other"); same_as(a, oa, "after changing the other");
        }
    }
    clean(ma, "source's allocator"); clean(mb, "target's allocator");
}

// allocation failures while copying
static void r_fail(Src& r, Ctx& c)
{
    lib::Mem ma, mb;
    {
        lib::murl a{lib::Alloc<char>(ma)}; Parts p;
        if(! chk::state(r, c, a, p)) return;
        c.add(p.text());
        Obs const oa = all(a);
        if(r.draw(2))
        {
            TRACE(c, "url b(a), the allocation fails");
            size_t const live = ma.live.size();
            bool threw = false;
            ma.fail_in = 0; ma.how = unsigned(p.text().size());
            try { lib::murl b(a); same_as(b, oa, "copy-constructed"); } catch(std::bad_alloc const&) { threw = true; } catch(lib::Foreign const&) { threw = true; }
            ma.fail_in = -1;
            if(threw) { c.nontrivial(); LABEL(c, "copy construction failed"); }
            if(ma.live.size() != live) fail("a failed or destroyed copy leaks");
            same_as(a, oa, "source of a failed copy");
            lib::murl b(a); same_as(b, oa, "copy-constructed after a failure");
        }
        else
        {
            lib::murl b{lib::Alloc<char>(mb)}; Parts q;
            if(! chk::state(r, c, b, q)) return;
            near(r, c, b, p.text(), q);
            c.add(q.text());
            Obs const ob = all(b);
            TRACE(c, "b = a, the allocation fails");
            bool threw = false;
            mb.fail_in = 0; mb.how = unsigned(p.text().size());
            try { b = a; } catch(std::bad_alloc const&) { threw = true; } catch(lib::Foreign const&) { threw = true; }
            mb.fail_in = -1;
            if(threw) { c.nontrivial(); LABEL(c, "copy assignment failed"); same_as(b, ob, "target of a failed assignment"); }
            else same_as(b, oa, "target of an assignment");
            same_as(a, oa, "source of an assignment");
            usable(r, c, b, threw ? "target of a failed assignment" : "target of an assignment");
            same_as(a, oa, "source, after changing the target");
        }
    }
    clean(ma, "source's allocator"); clean(mb, "target's allocator");
}

// containers of urls and of views: growth, insertion, erasure, swaps and sorting move and assign them in many orders
static void r_vec(Src& r, Ctx& c)
{
    lib::Mem m;
    {
        std::vector<lib::murl> v; std::vector<urls::url_view> w; std::vector<string> model;
        std::vector<std::unique_ptr<Arg>> texts;        // what the views refer to
        size_t const n = 2 + r.draw(14);
        for(size_t i = 0; i < n; ++i)
        {
            size_t const k = model.size(), at = k ? r.draw(uint32_t(k)) : 0, at2 = k ? r.draw(uint32_t(k)) : 0;
            switch(k ? r.draw(9) : 0)
            {
            case 0: case 1: case 2:
            {
                string const t = k && r.draw(4) == 0 ? gen::nudge(r, model[at]) : gen::parts(r).text();
                Parts p; if(! ref::parse(t, p)) break;
                texts.emplace_back(new Arg(t));
                TRACE(c, "insert " << quote(t) << " at " << at); c.add(t); c.add(at);
                try
                {
                    lib::murl u{texts.back()->view(), lib::Alloc<char>(m)};
                    if(r.draw(2)) v.insert(v.begin() + long(at), u); else v.insert(v.begin() + long(at), std::move(u));
                    w.insert(w.begin() + long(at), urls::url_view(*texts.back()));
                    model.insert(model.begin() + long(at), t);
                }
                catch(urls::invalid_part const&) { return; }
                break;
            }
            case 3:
                TRACE(c, "erase #" << at); c.add(at);
                v.erase(v.begin() + long(at)); w.erase(w.begin() + long(at)); model.erase(model.begin() + long(at));
                break;
            case 4:
                TRACE(c, "swap #" << at << " #" << at2); c.add(at); c.add(at2);
                std::swap(v[at], v[at2]); std::swap(w[at], w[at2]); std::swap(model[at], model[at2]);
                break;
            case 5:
            {
                TRACE(c, "sort");
                auto less = [](auto const& a, auto const& b) { return S(a.encoded_url()) < S(b.encoded_url()); };
                std::sort(v.begin(), v.end(), less); std::sort(w.begin(), w.end(), less); std::sort(model.begin(), model.end());
                break;
            }
            case 6:
                TRACE(c, "rotate by " << at); c.add(at);
                std::rotate(v.begin(), v.begin() + long(at), v.end()); std::rotate(w.begin(), w.begin() + long(at), w.end()); std::rotate(model.begin(), model.begin() + long(at), model.end());
                break;
            case 7:
                TRACE(c, "#" << at << " = #" << at2); c.add(at); c.add(at2);
                v[at] = v[at2]; w[at] = w[at2]; model[at] = model[at2];
                break;
            default:
            {
                // a change to one of them
                Parts p; if(! ref::parse(model[at], p)) return;
                Op o = gen::op(r, p);
                TRACE(c, "#" << at << "." << gen::show(o)); c.add(o.k); c.add(o.s);
                if(lib::try_call(v[at], o) == lib::O_OTHER || ! chk::sync(v[at], p)) return;
                model[at] = p.text();
                texts.emplace_back(new Arg(model[at]));
                try { w[at] = urls::url_view(*texts.back()); } catch(urls::invalid_part const&) { return; }
            }
            }
            if(v.size() != model.size()) fail("a container of urls has another size");
            if(model.size() > 2) c.nontrivial();
            for(size_t j = 0; j < model.size(); ++j)
            {
                Parts p; if(! ref::parse(model[j], p)) return;
                string const id = "#" + std::to_string(j) + " of a container";
                uint32_t const full = r.draw(3) == 0 || j == at ? lib::M_ALL : lib::M_TEXT;
                chk::expect_parts(static_cast<lib::murl const&>(v[j]), p, full, id + " of urls");
                chk::expect_parts(w[j], p, full & ~lib::bit(lib::F_PW_PART), id + " of views");
            }
        }
    }
    clean(m, "allocator");
}

// every ordered pair of small states: b holding the second becomes the first
static char const* const kState[] = {"", "s:", "//", "//h", "//u@h", "//u:p@h:1", "//:@", "//@", "//:1", "//1.2.3.4", "//[::1]/", "//[v1.a]", "/", "/a", "a", "a/b", "/a/b", "s:a:b", "//h//x", "?", "?a=b&c",
    "#", "#f", "s://u:p@h:1/a/b?k=v#f", "///a", "s:/a", "?a=b&c=d&e#f", "a/b/c/d/e/f"};
static constexpr unsigned NS = sizeof(kState) / sizeof(kState[0]);
static void e_pairs(uint64_t i, Ctx& c)
{
    unsigned x = i % NS, y = unsigned(i / NS) % NS, mode = unsigned(i / NS / NS);
    lib::Mem m, m2;
    {
        lib::murl a{sv(kState[x]), lib::Alloc<char>(m)}, b{sv(kState[y]), lib::Alloc<char>(m2)};
        Obs const oa = all(a);
        TRACE(c, "b(" << quote(kState[y]) << ") = a(" << quote(kState[x]) << ") mode " << mode);
        c.nontrivial();
        if(mode == 0)
        {
            b = a; same_as(b, oa, "assigned"); same_as(a, oa, "source");
        }
        else if(mode == 1)
        {
            lib::murl d(std::move(a)); same_as(d, oa, "moved-to");
            a = b; same_as(a, all(b), "assigned to a moved-from url"); same_as(d, oa, "moved-to, after reusing the source");
        }
        else if(mode == 2)
        {
            b = a; b.set_encoded_url(kState[y]); same_as(a, oa, "source after replacing the copy");
            lib::murl d(a); a.set_encoded_url(kState[y]); same_as(d, oa, "copy after replacing the source");
        }
        else
        {
            urls::url f{sv(kState[x])}; urls::url g(f); f.set_encoded_url(kState[y]); same_as(g, oa, "copy with std::allocator");
            f = g; same_as(f, oa, "assigned with std::allocator"); urls::url h(std::move(f)); same_as(h, oa, "moved with std::allocator"); f = h; same_as(f, oa, "refilled with std::allocator");
        }
    }
    clean(m, "allocator"); clean(m2, "allocator");
}

// texts of every length, over targets of other lengths
static void e_lens(uint64_t i, Ctx& c)
{
    unsigned const mode = i % 4; i /= 4;
    size_t const n = chk::nth_len(i);
    static size_t const other[] = {0, 3, 14, 15, 16, 31, 100, 1000};
    size_t const k = other[(n + mode) % 8];
    string const s = "//u@h/" + chk::repeat("a/b", n) + "?k=v#f", t = "x:" + string(k, 'y');
    TRACE(c, "b(" << k + 2 << " bytes) = a(" << s.size() << " bytes), mode " << mode);
    lib::Mem m, m2;
    {
        lib::murl a{sv(s), lib::Alloc<char>(m)}, b{sv(t), lib::Alloc<char>(m2)};
        Obs const oa = all(a), ob = all(b);
        c.nontrivial();
        if(mode == 0) { b = a; same_as(b, oa, "assigned"); same_as(a, oa, "source"); b.set_encoded_fragment(""); same_as(a, oa, "source, after changing the copy"); }
        else if(mode == 1) { lib::murl d(a); same_as(d, oa, "copy"); a = b; same_as(a, ob, "assigned the shorter"); same_as(d, oa, "copy, after assigning to the source"); }
        else if(mode == 2) { lib::murl d(std::move(a)); same_as(d, oa, "moved-to"); a = b; same_as(a, ob, "assigned to a moved-from url"); same_as(d, oa, "moved-to, after reusing the source"); }
        else { urls::url f{sv(s)}, g{sv(t)}; g = f; same_as(g, oa, "assigned with std::allocator"); urls::url h(std::move(g)); same_as(h, oa, "moved with std::allocator"); g = f; same_as(g, oa, "refilled with std::allocator"); }
    }
    clean(m, "allocator"); clean(m2, "allocator");
}

eng::Check const& eng::get_check()
{
    static Check const k{"C16",
        "Generated urls (parsed, after histories, with spare capacity, empty) are copied, assigned to a url in another generated state, self-assigned, moved and chained, then modified at random on both sides; "
        "all ordered pairs of 28 states in four modes; texts of every length to 1100 and around powers of two to 2^17 in four modes; allocation failures while copying; vectors of urls and of views into which urls are inserted, and which are erased from, sorted, rotated and swapped, with changes between. All 31 observers must equal the source's, the other side must not move, moved-from urls must take random modifications "
        "as the reference says, a failed assignment must leave its target alone, and the counting allocator must see every block returned once with its size. Non-trivial: the source is not empty, or an allocation "
        "really failed; distinct by both states, mode and changes.",
        {{"copies", r_copy, 250000, 8000000}, {"failures", r_fail, 150000, 4000000}, {"containers", r_vec, 60000, 2000000}},
        {{"pairs", e_pairs, uint64_t(NS) * NS * 4, 0}, {"lengths", e_lens, chk::n_len * 4, 0}}};
    return k;
}
