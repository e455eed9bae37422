// C19: composite setters replace origin, authority, userinfo as a whole
#include "check.hpp"
using namespace ref;

static Kind const kKinds[] = {SET_ORIGIN, SET_AUTHORITY, SET_USERINFO, SET_USERINFO_PART};

static bool one(urls::url& u, Parts& p, Op const& o, Ctx& c)
{
    string const what = gen::show(o) + " on " + quote(p.text());
    Parts q = p;
    bool const ok = ref::apply(q, o);
    auto const out = lib::try_call(u, o);
    if(ok && out != lib::O_OK) fail(what + " " + lib::oname(out) + ", expected " + quote(q.text()));
    if(! ok && out == lib::O_OK) fail(what + " is accepted, giving " + quote(S(u.encoded_url())));
    chk::expect_parts(static_cast<urls::url const&>(u), ok ? q : p, lib::M_ALL, what);
    // what lies outside the replaced range, stated on its own
    if(ok)
    {
        if(q.path != p.path || q.query_part() != p.query_part() || q.frag_part() != p.frag_part()) fail("reference wrong for " + what);
        p = q;
    }
    chk::op_label(c, o.k);
    if(! ok) LABEL(c, "refused"); else if(o.s.empty()) LABEL(c, "removed"); else LABEL(c, "replaced");
    return ok;
}

static void r_one(Src& r, Ctx& c)
{
    urls::url u; Parts p;
    if(! chk::state(r, c, u, p)) return;
    c.add(p.text());
    size_t n = 1 + r.draw(4), done = 0;
    for(size_t i = 0; i < n; ++i)
    {
        Op o = gen::op_of(r, p, kKinds[r.draw(4)]);
        TRACE(c, gen::show(o)); c.add(o.s); c.add(o.k);
        done += one(u, p, o, c) && ! o.s.empty();
    }
    if(done) c.nontrivial();
    chk::shape_labels(c, p);
}

// take the composite value of one URL over into another
static void r_graft(Src& r, Ctx& c)
{
    urls::url u; Parts p;
    if(! chk::state(r, c, u, p)) return;
    Parts s = gen::parts(r);
    Op o; o.k = kKinds[r.draw(4)];
    switch(o.k) { case SET_ORIGIN: o.s = r.draw(3) ? s.origin() : s.origin() + s.path; break; case SET_AUTHORITY: o.s = s.authority(); break; case SET_USERINFO: o.s = s.userinfo(); break; default: o.s = s.userinfo_part(); }
    TRACE(c, gen::show(o)); c.add(p.text()); c.add(o.s); c.add(o.k);
    if(one(u, p, o, c) && ! o.s.empty()) c.nontrivial();
}

static char const* const kState[] = {"", "s:", "//", "//h", "//u@h", "//u:p@h:1", "//:@", "//@", "//:1", "//1.2.3.4", "//[::1]/", "/", "/a", "a", "a/b", "s:a", "s:a:b", "s:/a", "//h//x", "?", "#f", "s://u:p@h:1/a/b?k=v#f",
    "///a", "s:///", "s://@:/", "?q@r:s", "/p@q:r"};
static constexpr unsigned NS = sizeof(kState) / sizeof(kState[0]);
static string const kAl("a:@/[1%.", 8);
static void e_args(uint64_t i, Ctx& c)
{
    Op o; o.k = kKinds[i % 4]; i /= 4;
    char const* st = kState[i % NS]; i /= NS;
    string s = chk::nth_string(i, kAl);
    for(auto& ch : s) if(ch == '[') { auto k = s.find('['); s.replace(k, 1, "[::]"); break; }
    for(auto& ch : s) if(ch == '%') { auto k = s.find('%'); s.replace(k, 1, "%41"); break; }
    if(o.k == SET_ORIGIN) s = "s:" + s;
    if(o.k == SET_USERINFO_PART) s += "@";
    o.s = s;
    urls::url u; Parts p;
    try { u.set_encoded_url(st); } catch(urls::invalid_part const&) { return; }
    ref::parse(st, p);
    TRACE(c, quote(st) << " " << gen::show(o));
    if(one(u, p, o, c)) c.nontrivial();
}

static char const* const kArgs[] = {"", "s:", "t://", "t://h", "t://u:p@h:1", "t://h/ignored/path", "t:ignored", "t:/ignored", "t://h?q", "t://h#f", "t:?", "t:#", "//h", "h", "/", "?", "t", ":", "t://[::1]:1", "t://[v1.a]", "t://1.2.3.4",
    "u:p@h:1", "u@h", "@h", ":@h", "u:@", "@", "@@", "a@b@c", "h:", "h:1:2", "h:x", "[::1]", "[::1]:8", "[::1", "::1", "h/", "h?", "h#", "u", "u:p", "u:", ":p", "u:p:q", "::", "u:p@", "u@", ":@", "u/v", "u%40v:p%3A", "u%4", "h%2E", "t://a@b@c", "t://:/", "t:////x"};
static constexpr unsigned NA = sizeof(kArgs) / sizeof(kArgs[0]);
// two composite changes in a row
static void e_two(uint64_t i, Ctx& c)
{
    urls::url u; Parts p;
    char const* st = kState[i % NS]; i /= NS;
    try { u.set_encoded_url(st); } catch(urls::invalid_part const&) { return; }
    ref::parse(st, p);
    TRACE(c, quote(st));
    unsigned done = 0;
    for(int k = 0; k < 2; ++k)
    {
        Op o; o.k = kKinds[i % 4]; i /= 4; o.s = kArgs[i % NA]; i /= NA;
        TRACE(c, gen::show(o));
        done += one(u, p, o, c);
    }
    if(done == 2) c.nontrivial();
}

eng::Check const& eng::get_check()
{
    static uint64_t const two = uint64_t(NS) * 4 * NA * 4 * NA;
    static Check const k{"C19",
        "set_encoded_origin, set_encoded_authority, set_encoded_userinfo and set_userinfo_part on 27 states with all arguments of up to 4 pieces from { a : @ / [::] 1 %41 . } (prefixed with a scheme for the origin); "
        "pairs of calls with 54 chosen arguments; random states and arguments, and composites taken from another generated URL. All 31 observers after the call must be those of the reference, in which the argument is "
        "parsed by RFC 3986 and path, query and fragment are untouched; refusals must match. Non-trivial: an applied replacement; distinct by state and argument.",
        {{"random", r_one, 300000, 10000000}, {"grafted", r_graft, 300000, 10000000}},
        {{"short arguments", e_args, uint64_t(4) * NS * chk::count_strings(8, 4), 0}, {"two calls", e_two, two, 300000}}};
    return k;
}
