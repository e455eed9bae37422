// What the property checks share.
#ifndef VERIF_CHECK_HPP
#define VERIF_CHECK_HPP

#include "engine.hpp"
#include "ref.hpp"
#include "gen.hpp"
#include "lib.hpp"

using eng::Src;
using eng::Ctx;
using eng::fail;
using eng::quote;
using ref::Parts;
using ref::Op;
using lib::Obs;
using lib::Arg;
using lib::sv;
using lib::S;
using std::string;
namespace urls = boost::urls;

namespace chk {

inline void same(Obs const& got, Obs const& want, uint32_t mask, string const& what)
{
    for(int f = 0; f < lib::F_COUNT; ++f)
        if((mask & lib::bit(f)) && got[f] != want[f])
            fail(what + ": " + lib::fname(f) + " is " + quote(got[f]) + ", expected " + quote(want[f]));
}

template<class U>
void expect_parts(U const& u, Parts const& p, uint32_t mask, string const& what)
{
    Obs a, b;
    lib::observe(u, a, mask);
    lib::expect(p, b, mask);
    same(a, b, mask, what);
}

static int const on_case_ = (eng::g_on_case = []{ lib::Arg::empties() = 0; }, 0);

// Parses the text of u with the reference. False when it is not a URL
template<class U>
bool sync(U const& u, Parts& p) { return ref::parse(S(u.encoded_url()), p); }

// Brings u into a generated valid state, remembered in p. False: a defect another
// property is about got in the way.
template<class U>
bool state(Src& r, Ctx& c, U& u, Parts& p)
{
    uint32_t how = r.draw(6);
    if(how == 5) { TRACE(c, "url u;"); p = Parts(); return true; }
    if(how == 4)
    {
        // a longer URL first, so there is spare capacity
        Parts q = gen::parts(r);
        Arg a(q.text());
        try { u.set_encoded_url(a); } catch(urls::invalid_part const&) { return false; }
        TRACE(c, "set_encoded_url(" << quote(q.text()) << ")");
    }
    p = gen::parts(r);
    string t = p.text();
    Arg a(t);
    TRACE(c, "set_encoded_url(" << quote(t) << ")");
    try { u.set_encoded_url(a); } catch(urls::invalid_part const&) { return false; }
    if(how >= 3)
    {
        size_t n = r.draw(5);
        for(size_t i = 0; i < n; ++i)
        {
            Op o = gen::op(r, p);
            TRACE(c, gen::show(o));
            if(lib::try_call(u, o) == lib::O_OTHER) return false;
            if(! sync(u, p)) return false;
        }
    }
    return true;
}

inline void shape_labels(Ctx& c, Parts const& p)
{
    if(p.has_scheme) LABEL(c, "scheme");
    if(p.has_auth) LABEL(c, "authority");
    if(p.has_ui) LABEL(c, "userinfo");
    if(p.has_pw) LABEL(c, "password");
    if(p.has_port) LABEL(c, "port");
    if(p.has_query) LABEL(c, "query");
    if(p.has_frag) LABEL(c, "fragment");
    if(p.path.empty()) LABEL(c, "path empty"); else if(p.absolute()) LABEL(c, "path absolute"); else LABEL(c, "path rootless");
    switch(p.kind()) { case ref::H_NAME: LABEL(c, "host name"); break; case ref::H_IPV4: LABEL(c, "host ipv4"); break;
        case ref::H_IPV6: LABEL(c, "host ipv6"); break; case ref::H_FUTURE: LABEL(c, "host ipvfuture"); break; default: break; }
    if(p.text().size() > 250) LABEL(c, "longer than 250");
    if(p.text().find('%') != string::npos) LABEL(c, "percent-encoded");
}

inline void op_label(Ctx& c, ref::Kind k)
{
    static int id[ref::N_KINDS]; static bool init = false;
    if(! init) { init = true; for(int i = 0; i < ref::N_KINDS; ++i) id[i] = Ctx::label_id(ref::kind_name(i)); }
    c.label(id[k]);
}

// the i-th string over an alphabet, by length
inline string nth_string(uint64_t i, string const& alpha)
{
    uint64_t n = alpha.size(), block = 1; size_t len = 0;
    while(i >= block) { i -= block; block *= n; ++len; }
    string s(len, ' ');
    for(size_t k = 0; k < len; ++k) { s[k] = alpha[i % n]; i /= n; }
    return s;
}

// the i-th length: all up to 1100, then those around powers of two up to 2^17
constexpr uint64_t n_len = 1101 + 7 * 7;
inline size_t nth_len(uint64_t i)
{
    if(i <= 1100) return size_t(i);
    i -= 1101;
    return (size_t(1) << (11 + i / 7)) - 3 + i % 7;
}

// n characters of a repeated unit
inline string repeat(string const& unit, size_t n)
{
    string s;
    while(s.size() < n) s += unit;
    s.resize(n);
    return s;
}

inline uint64_t count_strings(uint64_t n, unsigned maxlen)
{
    uint64_t t = 0, b = 1;
    for(unsigned i = 0; i <= maxlen; ++i) { t += b; b *= n; }
    return t;
}

} // chk

int main(int argc, char** argv) { return eng::engine_main(argc, argv); }

#endif
