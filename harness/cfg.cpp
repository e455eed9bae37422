// One configuration of the library behind a C interface, for C21.
#include "lib.hpp"

namespace {

using lib::str;
using lib::S;
using lib::Arg;
namespace urls = boost::urls;

struct Session
{
    urls::url u;
    str out;
};

void put(str& o, str const& s) { o += std::to_string(s.size()); o += ':'; o += s; o += '\n'; }

template<class U>
void observe(str& o, U const& u)
{
    lib::Obs b; lib::observe(u, b);
    for(int f = 0; f < lib::F_COUNT; ++f) { o += lib::fname(f); o += ' '; put(o, b[f]); }
}

template<class L>
void lookup(str& o, L const& l, urls::string_view k)
{
    o += l.contains(k) ? "contains " : "lacks "; o += std::to_string(l.count(k)); o += ' ';
    o += l.find(k) == l.end() ? "end " : "found ";
    put(o, l[k]);
    try { put(o, l.at(k)); } catch(urls::out_of_range const& e) { o += "out_of_range "; put(o, e.what()); }
}

template<class F>
void guarded(str& o, F f)
{
    try { f(); o += "ok\n"; }
    catch(urls::invalid_part const& e) { o += "invalid_part "; put(o, e.what()); }
    catch(urls::out_of_range const& e) { o += "out_of_range "; put(o, e.what()); }
    catch(urls::too_large const& e) { o += "too_large "; put(o, e.what()); }
    catch(urls::parse_error const& e) { o += "parse_error "; put(o, e.what()); }
    catch(std::bad_alloc const&) { o += "bad_alloc\n"; }
    catch(std::exception const& e) { o += "exception "; put(o, e.what()); }
}

} // namespace

#define EXPORT extern "C" __attribute__((visibility("default")))

EXPORT void* cfg_open() { return new Session; }
EXPORT void cfg_close(void* p) { delete static_cast<Session*>(p); }
EXPORT char const* cfg_text(void* p, size_t* n) { auto& s = *static_cast<Session*>(p); *n = s.u.encoded_url().size(); return s.u.encoded_url().data(); }

// a modification followed by every observer
EXPORT char const* cfg_step(void* p, int kind, char const* a, size_t n, unsigned num, size_t i, size_t j, size_t* len)
{
    auto& s = *static_cast<Session*>(p);
    s.out.clear();
    ref::Op op; op.k = ref::Kind(kind); op.s.assign(a, n); op.n = num; op.i = i; op.j = j;
    size_t ret = 0;
    guarded(s.out, [&]{ lib::call(s.u, op, &ret); });
    s.out += "returned " + std::to_string(ret) + "\n";
    observe(s.out, static_cast<urls::url const&>(s.u));
    s.out += "capacity " + std::to_string(s.u.capacity()) + "\n";
    *len = s.out.size();
    return s.out.data();
}

// parsing and lookups, without state
EXPORT char const* cfg_parse(void* p, char const* a, size_t n, char const* k, size_t nk, size_t* len)
{
    auto& s = *static_cast<Session*>(p);
    s.out.clear();
    Arg t(str(a, n)), key(str(k, nk));
    guarded(s.out, [&]{ urls::url_view v(t); observe(s.out, v); lookup(s.out, v.params(), key); });
    guarded(s.out, [&]{ urls::url v{t.view()}; observe(s.out, v); lookup(s.out, static_cast<urls::url const&>(v).params(), key); lookup(s.out, v.params(), key);
        urls::url w(v); observe(s.out, w); urls::url x(std::move(w)); observe(s.out, x); observe(s.out, w); w = x; observe(s.out, w); });
    s.out += "scheme " + std::to_string(int(urls::string_to_scheme(t))) + " " + S(urls::to_string(urls::string_to_scheme(t))) + (urls::is_special(t) ? " special\n" : "\n");
    *len = s.out.size();
    return s.out.data();
}

// error codes
EXPORT char const* cfg_errors(void* p, size_t* len)
{
    auto& s = *static_cast<Session*>(p);
    s.out.clear();
    for(int e = 1; e <= 15; ++e)
    {
        urls::error_code ec = urls::make_error_code(urls::error(e));
        s.out += std::to_string(ec.value()) + " " + ec.category().name() + " " + ec.message();
        s.out += ec == urls::condition::parse_error ? " parse_error\n" : " other\n";
    }
    s.out += urls::make_error_condition(urls::condition::parse_error).message() + "\n";
    *len = s.out.size();
    return s.out.data();
}
