// The library under test, seen through its public interface only.
#ifndef VERIF_LIB_HPP
#define VERIF_LIB_HPP

#include <boost/url/urls.hpp>
#include <boost/url/static_pool.hpp>
#include <boost/url/scheme.hpp>
#include <boost/url/error.hpp>
#include <boost/url/basic_url.hpp>
#include <boost/url/url.hpp>
#include <boost/url/url_view.hpp>
#include <array>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <sys/mman.h>
#include <string>
#include <utility>
#include <vector>
#include "ref.hpp"

#if defined(__SANITIZE_ADDRESS__)
# define VERIF_ASAN 1
#elif defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define VERIF_ASAN 1
# endif
#endif

namespace lib {

namespace urls = boost::urls;
using sv = urls::string_view;
using str = std::string;

inline str S(sv v) { return v.empty() ? str() : str(v.data(), v.size()); }

// Pages that cannot be written while an argument is in them, each before one that cannot be read
class Pages
{
    static constexpr size_t page = 4096, count = 8;
    char* p_;
    bool used_[count] = {};
public:
    Pages() : p_(static_cast<char*>(mmap(nullptr, 2 * count * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0))) { if(p_ == MAP_FAILED) p_ = nullptr; }
    ~Pages() { if(p_) munmap(p_, 2 * count * page); }
    Pages(Pages const&) = delete;
    static Pages*& now() { static thread_local Pages* x = nullptr; return x; }
    char* put(str const& s)
    {
        if(! p_ || s.size() >= page) return nullptr;
        for(size_t i = 0; i < count; ++i) if(! used_[i])
        {
            char* const b = p_ + 2 * i * page;
            if(mprotect(b, page, PROT_READ | PROT_WRITE) != 0) return nullptr;
            char* const at = b + page - s.size();
            if(s.size()) std::memcpy(at, s.data(), s.size());
            if(mprotect(b, page, PROT_READ) != 0) return nullptr;
            used_[i] = true;
            return at;
        }
        return nullptr;
    }
    void release(char* at) { used_[size_t(at - 1 - p_) / page / 2] = false; }    // an empty one is just behind its page
};

// An argument in memory of exactly its size. Without AddressSanitizer the bytes
// behind it are chosen to change the meaning of an argument read too far.
class Arg
{
    std::unique_ptr<char[]> p_;
    struct Release { Pages* pages; void operator()(char* p) const { pages->release(p); } };
    std::unique_ptr<char, Release> slot_{nullptr, Release{nullptr}};
    size_t n_, off_;
    char* at_ = nullptr;
public:
    // memory to put all arguments at instead, one at a time
    struct Place { char* p; size_t n; };
    static Place& place() { static thread_local Place x{nullptr, 0}; return x; }

    // whether an empty argument is a string_view{}, which points nowhere
    static bool& nowhere() { static thread_local bool x = false; return x; }

    // otherwise every third one is; starts anew with each case
    static unsigned& empties() { static thread_local unsigned n = 0; return n; }

    explicit Arg(str const& s) : n_(s.size()), off_(0)
    {
        if(s.empty() && (nowhere() || ++empties() % 3 == 0)) return;
        if(Pages* g = Pages::now())
            if(char* at = g->put(s)) { slot_ = {at, Release{g}}; at_ = at; return; }
        if(place().p && n_ <= place().n)
        {
            at_ = place().p;
            if(n_) std::memcpy(at_, s.data(), n_);
            return;
        }
#ifdef VERIF_ASAN
        if(n_ == 0) { p_.reset(new char[1]); p_[0] = '1'; off_ = 1; }
        else { p_.reset(new char[n_]); std::memcpy(p_.get(), s.data(), n_); }
#else
        static char const tail[] = "1:a%41@/?";
        p_.reset(new char[n_ + sizeof tail]);
        if(n_) std::memcpy(p_.get(), s.data(), n_);
        std::memcpy(p_.get() + n_, tail, sizeof tail);
#endif
    }
    sv view() const { return data() ? sv(data(), n_) : sv(); }
    operator sv() const { return view(); }
    char const* data() const { return at_ ? at_ : p_ ? p_.get() + off_ : nullptr; }
    size_t size() const { return n_; }
};

inline ref::Host host(urls::host_type t)
{
    switch(t)
    {
    case urls::host_type::none: return ref::H_NONE;
    case urls::host_type::name: return ref::H_NAME;
    case urls::host_type::ipv4: return ref::H_IPV4;
    case urls::host_type::ipv6: return ref::H_IPV6;
    case urls::host_type::ipvfuture: return ref::H_FUTURE;
    }
    return ref::H_BAD;
}

//----------------------------------------------------------
// Observations

enum F {
    F_URL, F_SIZE, F_ORIGIN, F_SCHEME, F_HAS_AUTH, F_AUTH, F_HAS_UI, F_UI, F_UI_PART, F_ENC_USER, F_ENC_PW,
    F_PW_PART, F_HOST_TYPE, F_HOST_PORT, F_ENC_HOST, F_PORT, F_PORT_PART, F_PATH, F_ENC_QUERY, F_QUERY_PART,
    F_ENC_FRAG, F_FRAG_PART, F_USER, F_PW, F_HOST, F_QUERY, F_FRAG, F_NSEG, F_SEGS, F_NPARAM, F_PARAMS, F_COUNT };

inline char const* fname(int f)
{
    static char const* const n[] = {
        "encoded_url", "size", "encoded_origin", "scheme", "has_authority", "encoded_authority", "has_userinfo",
        "encoded_userinfo", "userinfo_part", "encoded_user", "encoded_password", "password_part", "host_type",
        "encoded_host_and_port", "encoded_host", "port", "port_part", "encoded_path", "encoded_query", "query_part",
        "encoded_fragment", "fragment_part", "user", "password", "host", "query", "fragment", "segments().size",
        "segments()", "params().size", "params()" };
    return n[f];
}

constexpr uint32_t bit(int f) { return uint32_t(1) << f; }
constexpr uint32_t M_ALL = 0x7fffffff;
constexpr uint32_t M_LISTS = bit(F_NSEG) | bit(F_SEGS) | bit(F_NPARAM) | bit(F_PARAMS);
constexpr uint32_t M_DECODED = bit(F_USER) | bit(F_PW) | bit(F_HOST) | bit(F_QUERY) | bit(F_FRAG);
constexpr uint32_t M_TEXT = M_ALL & ~(M_LISTS | M_DECODED);

using Obs = std::array<str, F_COUNT>;

template<class Segs> str seg_list(Segs const& s)
{
    str r; size_t k = 0, lim = s.size() + 3;
    auto it = s.begin(); auto const e = s.end();
    for(; it != e; ++it)
    {
        r += '/'; r += S((*it).encoded_string()); r += '='; r += it->string();
        if(++k > lim) { r += "<does not end>"; break; }
    }
    return r;
}

template<class Params> str param_list(Params const& s)
{
    str r; size_t k = 0, lim = s.size() + 3;
    auto it = s.begin(); auto const e = s.end();
    for(; it != e; ++it)
    {
        auto v = *it;
        r += '&'; r += S(v.encoded_key()); r += '='; r += S(v.encoded_value());
        r += '|'; r += v.key(); r += '='; r += it->value();
        if(++k > lim) { r += "<does not end>"; break; }
    }
    return r;
}

inline sv pw_part(urls::url_view const&) { return sv("", 0); }
inline sv pw_part(urls::url_base const& u) { return u.password_part(); }
template<class U> struct has_pw_part : std::true_type {};
template<> struct has_pw_part<urls::url_view> : std::false_type {};

template<class U>
void observe(U const& u, Obs& o, uint32_t m = M_ALL)
{
    auto b = [](bool x) { return str(x ? "true" : "false"); };
    if(m & bit(F_URL)) o[F_URL] = S(u.encoded_url());
    if(m & bit(F_SIZE)) o[F_SIZE] = std::to_string(u.size());
    if(m & bit(F_ORIGIN)) o[F_ORIGIN] = S(u.encoded_origin());
    if(m & bit(F_SCHEME)) o[F_SCHEME] = S(u.scheme());
    if(m & bit(F_HAS_AUTH)) o[F_HAS_AUTH] = b(u.has_authority());
    if(m & bit(F_AUTH)) o[F_AUTH] = S(u.encoded_authority());
    if(m & bit(F_HAS_UI)) o[F_HAS_UI] = b(u.has_userinfo());
    if(m & bit(F_UI)) o[F_UI] = S(u.encoded_userinfo());
    if(m & bit(F_UI_PART)) o[F_UI_PART] = S(u.userinfo_part());
    if(m & bit(F_ENC_USER)) o[F_ENC_USER] = S(u.encoded_user());
    if(m & bit(F_ENC_PW)) o[F_ENC_PW] = S(u.encoded_password());
    if((m & bit(F_PW_PART)) && has_pw_part<U>::value) o[F_PW_PART] = S(pw_part(u));
    if(m & bit(F_HOST_TYPE)) o[F_HOST_TYPE] = ref::host_name(host(u.host_type()));
    if(m & bit(F_HOST_PORT)) o[F_HOST_PORT] = S(u.encoded_host_and_port());
    if(m & bit(F_ENC_HOST)) o[F_ENC_HOST] = S(u.encoded_host());
    if(m & bit(F_PORT)) o[F_PORT] = S(u.port());
    if(m & bit(F_PORT_PART)) o[F_PORT_PART] = S(u.port_part());
    if(m & bit(F_PATH)) o[F_PATH] = S(u.encoded_path());
    if(m & bit(F_ENC_QUERY)) o[F_ENC_QUERY] = S(u.encoded_query());
    if(m & bit(F_QUERY_PART)) o[F_QUERY_PART] = S(u.query_part());
    if(m & bit(F_ENC_FRAG)) o[F_ENC_FRAG] = S(u.encoded_fragment());
    if(m & bit(F_FRAG_PART)) o[F_FRAG_PART] = S(u.fragment_part());
    if(m & bit(F_USER)) o[F_USER] = u.user();
    if(m & bit(F_PW)) o[F_PW] = u.password();
    if(m & bit(F_HOST)) o[F_HOST] = u.host();
    if(m & bit(F_QUERY)) o[F_QUERY] = u.query();
    if(m & bit(F_FRAG)) o[F_FRAG] = u.fragment();
    if(m & bit(F_NSEG)) o[F_NSEG] = std::to_string(u.segments().size());
    if(m & bit(F_SEGS)) o[F_SEGS] = seg_list(u.segments());
    if(m & bit(F_NPARAM)) o[F_NPARAM] = std::to_string(u.params().size());
    if(m & bit(F_PARAMS)) o[F_PARAMS] = param_list(u.params());
}

inline void expect(ref::Parts const& p, Obs& o, uint32_t m = M_ALL)
{
    auto b = [](bool x) { return str(x ? "true" : "false"); };
    if(m & bit(F_URL)) o[F_URL] = p.text();
    if(m & bit(F_SIZE)) o[F_SIZE] = std::to_string(p.text().size());
    if(m & bit(F_ORIGIN)) o[F_ORIGIN] = p.origin();
    if(m & bit(F_SCHEME)) o[F_SCHEME] = p.scheme;
    if(m & bit(F_HAS_AUTH)) o[F_HAS_AUTH] = b(p.has_auth);
    if(m & bit(F_AUTH)) o[F_AUTH] = p.authority();
    if(m & bit(F_HAS_UI)) o[F_HAS_UI] = b(p.has_ui);
    if(m & bit(F_UI)) o[F_UI] = p.userinfo();
    if(m & bit(F_UI_PART)) o[F_UI_PART] = p.userinfo_part();
    if(m & bit(F_ENC_USER)) o[F_ENC_USER] = p.user;
    if(m & bit(F_ENC_PW)) o[F_ENC_PW] = p.pw;
    if(m & bit(F_PW_PART)) o[F_PW_PART] = p.pw_part();
    if(m & bit(F_HOST_TYPE)) o[F_HOST_TYPE] = ref::host_name(p.kind());
    if(m & bit(F_HOST_PORT)) o[F_HOST_PORT] = p.host_and_port();
    if(m & bit(F_ENC_HOST)) o[F_ENC_HOST] = p.host;
    if(m & bit(F_PORT)) o[F_PORT] = p.port;
    if(m & bit(F_PORT_PART)) o[F_PORT_PART] = p.port_part();
    if(m & bit(F_PATH)) o[F_PATH] = p.path;
    if(m & bit(F_ENC_QUERY)) o[F_ENC_QUERY] = p.query;
    if(m & bit(F_QUERY_PART)) o[F_QUERY_PART] = p.query_part();
    if(m & bit(F_ENC_FRAG)) o[F_ENC_FRAG] = p.frag;
    if(m & bit(F_FRAG_PART)) o[F_FRAG_PART] = p.frag_part();
    if(m & bit(F_USER)) o[F_USER] = ref::decode(p.user);
    if(m & bit(F_PW)) o[F_PW] = ref::decode(p.pw);
    if(m & bit(F_HOST)) o[F_HOST] = p.kind() == ref::H_NAME ? ref::decode(p.host) : p.host;
    if(m & bit(F_QUERY)) o[F_QUERY] = ref::decode(p.query);
    if(m & bit(F_FRAG)) o[F_FRAG] = ref::decode(p.frag);
    if(m & (bit(F_NSEG) | bit(F_SEGS)))
    {
        auto v = p.segments();
        o[F_NSEG] = std::to_string(v.size());
        str r; for(auto& s : v) r += "/" + s + "=" + ref::decode(s);
        o[F_SEGS] = r;
    }
    if(m & (bit(F_NPARAM) | bit(F_PARAMS)))
    {
        auto v = p.params();
        o[F_NPARAM] = std::to_string(v.size());
        str r; for(auto& e : v) r += "&" + e.first + "=" + e.second + "|" + ref::decode(e.first) + "=" + ref::decode(e.second);
        o[F_PARAMS] = r;
    }
}

//----------------------------------------------------------
// Calls

enum Outcome { O_OK, O_INVALID_PART, O_BAD_ALLOC, O_FOREIGN, O_OTHER };

// what an allocator of the user's own may throw
struct Foreign { int x; };

inline char const* oname(Outcome o)
{
    switch(o) { case O_OK: return "succeeds"; case O_INVALID_PART: return "throws invalid_part";
        case O_BAD_ALLOC: return "throws bad_alloc"; case O_FOREIGN: return "lets through what the allocator throws"; default: return "throws an undocumented exception"; }
}

constexpr size_t npos = size_t(-1);

template<class U, class Segs>
typename Segs::iterator nth(U&, Segs const& s, size_t i)
{
    auto it = s.begin();
    while(i--) ++it;
    return it;
}

template<class Segs>
size_t index_of(Segs const& s, typename Segs::iterator pos)
{
    size_t k = 0, lim = s.size() + 3;
    auto it = s.begin(); auto const e = s.end();
    for(;; ++it, ++k)
    {
        if(it == pos) return k;
        if(it == e || k > lim) return npos;
    }
}

// Performs the operation. ret receives the index of the returned iterator.
template<class U>
void call(U& u, ref::Op const& op, size_t* ret = nullptr)
{
    using namespace ref;
    Arg a(op.s);
    sv const s = a;
    auto same = [&](urls::url_base& r) { if(&r != &static_cast<urls::url_base&>(u)) throw std::logic_error("wrong object returned"); };
    switch(op.k)
    {
    case SET_URL: same(u.set_encoded_url(s)); break;
    case SET_ORIGIN: same(u.set_encoded_origin(s)); break;
    case SET_SCHEME: same(u.set_scheme(s)); break;
    case SET_AUTHORITY: same(u.set_encoded_authority(s)); break;
    case SET_USERINFO: same(u.set_encoded_userinfo(s)); break;
    case SET_USERINFO_PART: same(u.set_userinfo_part(s)); break;
    case SET_USER: same(u.set_user(s)); break;
    case SET_ENC_USER: same(u.set_encoded_user(s)); break;
    case SET_PW: same(u.set_password(s)); break;
    case SET_ENC_PW: same(u.set_encoded_password(s)); break;
    case SET_PW_PART: same(u.set_password_part(s)); break;
    case SET_HOST: same(u.set_host(s)); break;
    case SET_ENC_HOST: same(u.set_encoded_host(s)); break;
    case SET_PORT_N: same(u.set_port(op.n)); break;
    case SET_PORT: same(u.set_port(s)); break;
    case SET_PORT_PART: same(u.set_port_part(s)); break;
    case SET_PATH: same(u.set_encoded_path(s)); break;
    case SET_QUERY: same(u.set_query(s)); break;
    case SET_ENC_QUERY: same(u.set_encoded_query(s)); break;
    case SET_QUERY_PART: same(u.set_query_part(s)); break;
    case SET_FRAG: same(u.set_fragment(s)); break;
    case SET_ENC_FRAG: same(u.set_encoded_fragment(s)); break;
    case SET_FRAG_PART: same(u.set_fragment_part(s)); break;
    case NORMALIZE: same(u.normalize()); break;
    case NORMALIZE_SCHEME: same(u.normalize_scheme()); break;
    default:
    {
        auto sg = u.segments();
        auto it = nth(u, sg, op.i);
        switch(op.k)
        {
        case SEG_INSERT: it = sg.insert(it, s); break;
        case SEG_INSERT_ENC: it = sg.insert_encoded(it, s); break;
        case SEG_REPLACE: it = sg.replace(it, s); break;
        case SEG_REPLACE_ENC: it = sg.replace_encoded(it, s); break;
        case SEG_ERASE: it = sg.erase(it); break;
        case SEG_ERASE_RANGE: it = sg.erase(it, nth(u, sg, op.j)); break;
        default: break;
        }
        if(ret) *ret = index_of(u.segments(), it);
    }
    }
}

template<class U>
Outcome try_call(U& u, ref::Op const& op, size_t* ret = nullptr)
{
    try { call(u, op, ret); return O_OK; }
    catch(urls::invalid_part const&) { return O_INVALID_PART; }
    catch(std::bad_alloc const&) { return O_BAD_ALLOC; }
    catch(Foreign const&) { return O_FOREIGN; }
    catch(std::logic_error const& e) { if(std::strcmp(e.what(), "wrong object returned") == 0) throw; return O_OTHER; }
    catch(std::exception const&) { return O_OTHER; }
}

//----------------------------------------------------------
// Allocator that counts, checks and fails on request

struct Mem
{
    std::map<void*, size_t> live;
    size_t allocs = 0, frees = 0, bytes = 0;
    long fail_in = -1;              // -1 never; 0 fails the next request
    unsigned how = 0;               // and with which exception
    size_t max = size_t(-1) / 2;    // larger requests fail
    unsigned char fill = 0xcd;
    str error;
    void* get(size_t n)
    {
        if(fail_in == 0)
        {
            fail_in = -1;
            if(how % 3 == 1) throw std::bad_array_new_length();     // a bad_alloc
            if(how % 3 == 2) throw Foreign{1};
            throw std::bad_alloc();
        }
        if(fail_in > 0) --fail_in;
        if(n > max) throw std::bad_alloc();
        void* p = std::malloc(n ? n : 1);
        if(! p) throw std::bad_alloc();
        std::memset(p, fill, n);
        live[p] = n; ++allocs; bytes += n;
        return p;
    }
    void put(void* p, size_t n)
    {
        ++frees;
        auto it = live.find(p);
        if(it == live.end()) { error = "a block was freed that is not allocated"; return; }
        if(it->second != n) error = "a block of " + std::to_string(it->second) + " bytes was freed with size " + std::to_string(n);
        std::memset(p, 0xdd, it->second);
        live.erase(it);
        std::free(p);
    }
};

template<class T>
struct Alloc
{
    using value_type = T;
    Mem* m;
    explicit Alloc(Mem& x) noexcept : m(&x) {}
    template<class V> Alloc(Alloc<V> const& o) noexcept : m(o.m) {}
    size_t max_size() const noexcept { return m->max / sizeof(T); }
    T* allocate(size_t n) { return static_cast<T*>(m->get(n * sizeof(T))); }
    void deallocate(T* p, size_t n) noexcept { m->put(p, n * sizeof(T)); }
    template<class V> bool operator==(Alloc<V> const& o) const noexcept { return m == o.m; }
    template<class V> bool operator!=(Alloc<V> const& o) const noexcept { return m != o.m; }
};

using murl = urls::basic_url<Alloc<char>>;

} // lib

#endif
