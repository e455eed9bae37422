// C22: failures are reported through the documented exceptions and codes
#include "check.hpp"
using namespace ref;

enum Kind2 { X_NONE, X_INVALID, X_RANGE, X_ALLOC };

// runs f and classifies what escapes; anything undocumented fails
template<class F>
static Kind2 escapes(F f, string const& what)
{
    try { f(); return X_NONE; }
    catch(eng::Failure const&) { throw; }
    catch(std::exception const& e)
    {
        bool const inv = dynamic_cast<urls::invalid_part const*>(&e), rng = dynamic_cast<urls::out_of_range const*>(&e);
        bool const std_inv = dynamic_cast<std::invalid_argument const*>(&e), std_rng = dynamic_cast<std::out_of_range const*>(&e);
        bool const mem = dynamic_cast<std::bad_alloc const*>(&e);
        if(! mem && ! e.what()[0]) fail(what + ": the exception has no text");
        if(inv && ! std_inv) fail(what + ": invalid_part is not a std::invalid_argument");
        if(rng && ! std_rng) fail(what + ": out_of_range is not a std::out_of_range");
        if(inv && ! rng && ! mem) return X_INVALID;
        if(rng && ! inv && ! mem) return X_RANGE;
        if(mem && ! inv && ! rng) return X_ALLOC;
        fail(what + ": an undocumented exception escapes: " + string(typeid(e).name()) + ": " + e.what());
    }
    catch(...) { fail(what + ": something that is not a std::exception escapes"); }
}

static char const* xname(Kind2 k) { static char const* const n[] = {"nothing", "invalid_part", "out_of_range", "bad_alloc"}; return n[k]; }
static void want(Kind2 got, Kind2 w, string const& what) { if(got != w) fail(what + ": throws " + xname(got) + ", expected " + xname(w)); }

static void r_parse(Src& r, Ctx& c)
{
    string t = gen::any_url(r);
    TRACE(c, quote(t)); c.add(t);
    Arg a(t);
    Kind2 const w = ref::valid(t) ? X_NONE : X_INVALID;
    if(w == X_INVALID) c.nontrivial();
    want(escapes([&]{ urls::url_view v(a); }, "url_view"), w, "url_view(" + quote(t) + ")");
    want(escapes([&]{ urls::url v{a.view()}; }, "url"), w, "url(" + quote(t) + ")");
    urls::url u; u.set_encoded_url("s://h/p");
    want(escapes([&]{ u.set_encoded_url(a); }, "set_encoded_url"), w, "set_encoded_url(" + quote(t) + ")");
}

static void r_ops(Src& r, Ctx& c)
{
    urls::url u; Parts p;
    if(! chk::state(r, c, u, p)) return;
    size_t n = 1 + r.draw(6);
    c.add(p.text());
    for(size_t i = 0; i < n; ++i)
    {
        Op o = gen::op(r, p);
        if(r.draw(3) == 0) o.s = gen::mutate(r, o.s);
        if(o.k == SEG_ERASE || o.k == SEG_ERASE_RANGE || o.k == SET_PORT_N || o.k == NORMALIZE || o.k == NORMALIZE_SCHEME) o.s.clear();
        string const what = gen::show(o) + " on " + quote(p.text());
        TRACE(c, what); c.add(o.s); c.add(o.k);
        chk::op_label(c, o.k);
        Parts q = p;
        Kind2 const w = ref::apply(q, o) ? X_NONE : X_INVALID;
        if(w == X_INVALID) { LABEL(c, "refused"); c.nontrivial(); }
        want(escapes([&]{ lib::call(u, o); }, what), w, what);
        if(! chk::sync(u, p)) return;
    }
}

static void r_keys(Src& r, Ctx& c)
{
    urls::url u; Parts p;
    if(! chk::state(r, c, u, p)) return;
    string key = gen::bytes(r);
    auto v = p.params();
    if(! v.empty() && r.draw(3) == 2) key = decode(v[r.draw(uint32_t(v.size()))].first);
    bool has = false;
    for(auto& e : v) has = has || decode(e.first) == key;
    string const what = quote(p.text()) + ", key " + quote(key);
    TRACE(c, what); c.add(p.text()); c.add(key);
    Arg k(key); string const t = p.text(); Arg a(t);
    urls::url_view w(a);
    Kind2 const e = has ? X_NONE : X_RANGE;
    if(! has) c.nontrivial();
    want(escapes([&]{ u.params().at(k); }, what), e, "url at: " + what);
    want(escapes([&]{ static_cast<urls::url const&>(u).params().at(k); }, what), e, "const url at: " + what);
    want(escapes([&]{ w.params().at(k); }, what), e, "url_view at: " + what);
    lib::Mem m;
    want(escapes([&]{ w.params().at(k, lib::Alloc<char>(m)); }, what), e, "url_view at with allocator: " + what);
    want(escapes([&]{ u.params()[k]; u.params().find(k); u.params().count(k); u.params().contains(k); }, what), X_NONE, "lookup: " + what);
}

// allocation failure is bad_alloc, through modification and through decoding
static void r_alloc(Src& r, Ctx& c)
{
    lib::Mem m;
    {
        lib::murl u{lib::Alloc<char>(m)}; Parts p;
        if(! chk::state(r, c, u, p)) return;
        c.add(p.text());
        Op o = gen::op(r, p);
        string const what = gen::show(o) + " with a failing allocator on " + quote(p.text());
        TRACE(c, what); c.add(o.s); c.add(o.k);
        Parts q = p; bool const ok = ref::apply(q, o);
        m.fail_in = 0;
        Kind2 const got = escapes([&]{ lib::call(u, o); }, what);
        bool const used = m.fail_in != 0;
        m.fail_in = -1;
        if(used) { c.nontrivial(); LABEL(c, "allocation failed"); }
        if(got == X_ALLOC && ! used) fail(what + ": bad_alloc although no allocation failed");
        if(got == X_NONE && used) fail(what + ": succeeds although an allocation failed");
        if(got == X_NONE && ! ok) fail(what + ": accepted");
        if(got == X_RANGE || (got == X_INVALID && ok)) fail(what + ": throws " + xname(got));
        // decoding
        lib::Mem d;
        using A = lib::Alloc<char>;
        d.fail_in = 0;
        Kind2 const g = escapes([&]{ u.query(A(d)); u.fragment(A(d)); u.user(A(d)); u.password(A(d)); u.host(A(d)); for(auto const& s : u.segments()) s.string(A(d)); for(auto const& e : u.params()) { e.key(A(d)); e.value(A(d)); } }, "decoding");
        bool const dused = d.fail_in != 0;
        if(g != (dused ? X_ALLOC : X_NONE)) fail(string("decoding ") + quote(S(u.encoded_url())) + (dused ? " with" : " without") + " an allocation failure: throws " + xname(g));
        if(dused) LABEL(c, "allocation failed while decoding");
        if(! d.live.empty() || ! d.error.empty()) fail("decoding leaks or misuses its allocator");
    }
    if(! m.live.empty() || ! m.error.empty()) fail("a url leaks or misuses its allocator: " + m.error);
}

static urls::error const kErr[] = { urls::error::no_match, urls::error::syntax, urls::error::invalid, urls::error::missing_scheme, urls::error::bad_scheme_start_char, urls::error::bad_scheme_char,
    urls::error::bad_username_char, urls::error::bad_userinfo_char, urls::error::bad_port_char, urls::error::port_overflow, urls::error::missing_hostname, urls::error::missing_port,
    urls::error::bad_pct_encoding_digit, urls::error::incomplete_pct_encoding, urls::error::illegal_reserved_char };
static constexpr unsigned NE = sizeof(kErr) / sizeof(kErr[0]);

// every pair of codes, and every code against the conditions and codes of other categories
static void e_codes(uint64_t i, Ctx& c)
{
    unsigned a = i % NE, b = unsigned(i / NE);
    urls::error_code const x = kErr[a];
    string const what = "error " + std::to_string(int(kErr[a])) + " (" + x.message() + ")";
    TRACE(c, what); c.nontrivial();
    if(x.value() != int(kErr[a]) || ! x) fail(what + ": wrong value");
    if(x.message().empty()) fail(what + ": no message");
    if(x != urls::make_error_code(kErr[a])) fail(what + ": differs from make_error_code");
    if(! (x == urls::condition::parse_error) || x != urls::make_error_condition(urls::condition::parse_error)) fail(what + ": is not parse_error");
    if(b < NE)
    {
        urls::error_code const y = kErr[b];
        if(x.category() != y.category()) fail(what + ": another category than error " + std::to_string(int(kErr[b])));
        if(a != b && (x.message() == y.message() || x == y)) fail(what + ": same message or value as error " + std::to_string(int(kErr[b])));
        if(! x.category().name() || ! x.category().name()[0]) fail("the category has no name");
        urls::error_condition const k = urls::condition::parse_error;
        if(k != urls::make_error_condition(urls::condition::parse_error) || k.message().empty() || ! k.category().name() || ! k.category().name()[0])
            fail("the condition parse_error has no message or no category name");
        return;
    }
    b -= NE;            // 0..299: a value in the standard categories
    int const v = int(b) - 20;
    using boost::system::generic_category; using boost::system::system_category;
    if(x.category() == generic_category() || x.category() == system_category()) fail(what + ": uses a standard category");
    if(x == urls::error_condition(v, generic_category()) || x == urls::error_condition(v, system_category())) fail(what + ": equals condition " + std::to_string(v) + " of a standard category");
    if(x == urls::error_code(v, generic_category()) || x == urls::error_code(v, system_category())) fail(what + ": equals code " + std::to_string(v) + " of a standard category");
    if(urls::error_code(v, generic_category()) == urls::condition::parse_error || urls::error_code(v, system_category()) == urls::condition::parse_error) fail("code " + std::to_string(v) + " of a standard category is parse_error");
}

eng::Check const& eng::get_check()
{
    static Check const k{"C22",
        "What escapes from parsing arbitrary strings, from every modification with valid and mutated arguments, from lookups of present and missing keys and from calls whose allocation fails is classified by dynamic type: "
        "only invalid_part (exactly when the reference refuses), out_of_range (exactly from at with a missing key) and bad_alloc (exactly when an allocation failed) may appear, with their standard bases and a text. All 15 "
        "codes are compared with each other and with 300 values of the generic and system categories. Non-trivial: something was refused, missing or failed; distinct by input.",
        {{"parsing", r_parse, 500000, 20000000}, {"modifications", r_ops, 250000, 8000000}, {"keys", r_keys, 200000, 6000000}, {"allocation", r_alloc, 200000, 6000000}},
        {{"codes", e_codes, NE * (NE + 300), 0}}};
    return k;
}
