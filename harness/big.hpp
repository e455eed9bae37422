// URLs of more than 4 GiB: offsets and counts must not be narrower than size_t.
// A repeated block of 32 MiB is mapped again and again, so that they cost address space only.
#pragma once
#include "check.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <fstream>

namespace big {

#if defined(VERIF_ASAN) || defined(VERIF_VALGRIND) || defined(__SANITIZE_THREAD__)
constexpr uint64_t n_view = 0, n_url = 0;
#else
constexpr uint64_t n_view = 8, n_url = 3;
#endif

// head + (block, k times) + tail in one range of addresses
class Text
{
    static constexpr size_t blk = size_t(32) << 20, page = 65536;
    char* p_ = nullptr;
    size_t len_ = 0, at_ = 0, n_ = 0;
    int fd_ = -1;
public:
    Text(string const& head, string const& unit, size_t k, string const& tail)
    {
        fd_ = memfd_create("verif", 0);
        if(fd_ < 0 || ftruncate(fd_, blk) != 0) return;
        len_ = page + k * blk + page;
        void* m = mmap(nullptr, len_, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if(m == MAP_FAILED) return;
        p_ = static_cast<char*>(m);
        for(size_t i = 0; i < k; ++i)
            if(mmap(p_ + page + i * blk, blk, PROT_READ | (i ? 0 : PROT_WRITE), MAP_SHARED | MAP_FIXED, fd_, 0) == MAP_FAILED) { munmap(p_, len_); p_ = nullptr; return; }
        for(size_t i = 0; i < blk; ++i) p_[page + i] = unit[i % unit.size()];
        at_ = page - head.size();
        std::memcpy(p_ + at_, head.data(), head.size());
        std::memcpy(p_ + page + k * blk, tail.data(), tail.size());
        n_ = head.size() + k * blk + tail.size();
    }
    ~Text() { if(p_) munmap(p_, len_); if(fd_ >= 0) close(fd_); }
    Text(Text const&) = delete;
    explicit operator bool() const { return p_ != nullptr; }
    sv view() const { return sv(p_ + at_, n_); }
};

inline size_t available()
{
    std::ifstream f("/proc/meminfo"); string k; size_t v; string u;
    while(f >> k >> v) { if(k == "MemAvailable:") return v << 10; std::getline(f, u); }
    return 0;
}

struct Shape { char const* name; char const* head; char const* unit; char const* tail; };
inline Shape const& shape(uint64_t i)
{
    static Shape const s[] = {
        {"scheme", "s", "a", "://u:p@h.x:1/a/b?x=y&k=v#f"},
        {"user", "s://u", "u", ":p@1.2.3.4:1/a/b?x=y&k=v#f"},
        {"password", "s://u:", "p", "@[::1]:1/a/b?x=y&k=v#f"},
        {"host", "s://u:p@", "h", "x:1/a/b?x=y&k=v#f"},
        {"path", "s://u:p@h:1/a/", "abcdefghijklmno/", "b?x=y&k=v#f"},
        {"query", "s://u:p@h:1/a/b?x=", "y", "&k=v#f"},
        {"fragment", "s://u:p@h:1/a/b?x=y&k=v#", "f", "f"},
        {"relative path", "a/", "b", "/c?k=v#"},
    };
    return s[i];
}
constexpr size_t K = 129;           // a little more than 4 GiB

template<class U>
void same(U const& u, Parts const& p, sv all, uint64_t i, string const& what, bool deep = true)
{
    // p is the split of head + "\x1" + tail, where \x1 stands for the repeated block
    size_t at = 0;
    size_t const fat = K * (size_t(32) << 20);
    auto len = [&](string const& s) { size_t n = s.size(); if(s.find('\x1') != string::npos) n += fat - 1; return n; };
    auto eq = [&](char const* f, sv got, size_t off, size_t n) {
        if(got.size() != n) fail(what + ": " + f + " has " + std::to_string(got.size()) + " characters, expected " + std::to_string(n));
        if(n && got.data() != all.data() + off) fail(what + ": " + f + " begins at " + std::to_string(got.data() - all.data()) + ", expected " + std::to_string(off));
    };
    eq("encoded_url", u.encoded_url(), 0, all.size());
    if(u.size() != all.size()) fail(what + ": size() is " + std::to_string(u.size()));
    if(p.has_scheme) { eq("scheme", u.scheme(), at, len(p.scheme)); at += len(p.scheme) + 1; }
    if(p.has_auth)
    {
        at += 2;
        if(p.has_ui) { size_t b = at; eq("encoded_user", u.encoded_user(), at, len(p.user)); at += len(p.user); if(p.has_pw) { ++at; eq("encoded_password", u.encoded_password(), at, len(p.pw)); at += len(p.pw); } eq("encoded_userinfo", u.encoded_userinfo(), b, at - b); ++at; }
        size_t b = at;
        eq("encoded_host", u.encoded_host(), at, len(p.host)); at += len(p.host);
        if(p.has_port) { ++at; eq("port", u.port(), at, len(p.port)); at += len(p.port); }
        eq("encoded_host_and_port", u.encoded_host_and_port(), b, at - b);
    }
    eq("encoded_origin", u.encoded_origin(), 0, at);
    eq("encoded_path", u.encoded_path(), at, len(p.path)); at += len(p.path);
    if(p.has_query) { ++at; eq("encoded_query", u.encoded_query(), at, len(p.query)); at += len(p.query); }
    if(p.has_frag) { ++at; eq("encoded_fragment", u.encoded_fragment(), at, len(p.frag)); at += len(p.frag); }
    if(at != all.size()) fail(what + ": harness error");
    size_t const segs = i == 4 ? 2 + fat / 16 : p.segments().size();
    if(u.segments().size() != segs) fail(what + ": segments().size() is " + std::to_string(u.segments().size()) + ", expected " + std::to_string(segs));
    if(u.params().size() != p.params().size()) fail(what + ": params().size() is " + std::to_string(u.params().size()));
    if(! deep) return;
    auto const sg = u.segments();
    auto it = sg.end(); --it;
    if(S((*it).encoded_string()) != (i == 4 ? string("b") : p.segments().back())) fail(what + ": the last segment is " + quote(S((*it).encoded_string()).substr(0, 100)));
    auto const ps = u.params();
    auto pi = ps.end(); --pi;
    if(S((*pi).encoded_key()) != "k" || S((*pi).encoded_value()) != "v") fail(what + ": the last parameter is wrong");
    if(i == 5 ? ps["k"] != "v" : ! ps.contains("k") || ps.count("k") != 1 || ps["k"] != "v") fail(what + ": looking up the last parameter fails");
    if(lib::host(u.host_type()) != (p.has_auth ? ref::host_kind(p.host.find('\x1') == string::npos ? p.host : "h") : ref::H_NONE)) fail(what + ": host_type() is wrong");
}

// the split of the text with the block replaced by one letter
inline Parts split(uint64_t i)
{
    Shape const& s = shape(i);
    Parts p;
    if(! ref::parse(string(s.head) + "Z" + s.tail, p)) fail("harness error: shape");
    for(string* x : {&p.scheme, &p.user, &p.pw, &p.host, &p.port, &p.path, &p.query, &p.frag})
        for(char& c : *x) if(c == 'Z') c = '\x1';
    return p;
}

// parsing into a view
inline void e_view(uint64_t i, Ctx& c)
{
    Shape const& s = shape(i);
    TRACE(c, "url_view of more than 4 GiB: " << s.head << " " << s.unit << s.unit << "... " << s.tail);
    alarm(600);
    Text t(s.head, s.unit, K, s.tail);
    if(! t) { LABEL(c, "4 GiB: no address space (skipped)"); return; }
    Parts const p = split(i);
    string const what = string("url_view with a ") + s.name + " of more than 4 GiB";
    try { urls::url_view v(t.view()); same(v, p, t.view(), i, what); }
    catch(urls::invalid_part const&) { fail(what + " is refused"); }
    c.nontrivial();
    LABEL(c, "longer than 4 GiB");
}

template<int... I>
void e_some(uint64_t k, Ctx& c) { static int const w[] = {I...}; e_view(uint64_t(w[k]), c); }
constexpr uint64_t some(uint64_t n) { return n_view ? n : 0; }

// a container, and changes behind the long part, within it and in front of it
inline void e_url(uint64_t i, Ctx& c)
{
    i %= 3;
    static uint64_t const which[] = {4, 5, 3};
    uint64_t const k = which[i];
    Shape const& s = shape(k);
    TRACE(c, "url of more than 4 GiB: " << s.head << " " << s.unit << s.unit << "... " << s.tail);
    alarm(600);
    if(available() < (size_t(14) << 30)) { LABEL(c, "4 GiB: little memory (skipped)"); return; }
    Text t(s.head, s.unit, K, s.tail);
    if(! t) { LABEL(c, "4 GiB: no address space (skipped)"); return; }
    Parts p = split(k);
    string const what = string("url with a ") + s.name + " of more than 4 GiB";
    std::unique_ptr<urls::url> u;
    try { u.reset(new urls::url(t.view())); }
    catch(std::bad_alloc const&) { LABEL(c, "4 GiB: no memory (skipped)"); return; }
    catch(urls::invalid_part const&) { fail(what + " is refused"); }
    urls::url const& cu = *u;
    char const* const data = u->data();
    size_t const cap = u->capacity();
    auto look = [&](char const* f, bool deep = false) { if(u->data() != data || u->capacity() != cap || cap < u->size()) fail(what + f + ": the buffer was moved although the result fits, or capacity() is wrong"); same(cu, p, sv(u->data(), u->size()), k, what + f, deep); if(u->data()[u->size()] != 0) fail(what + f + ": not null-terminated"); };
    look("");
    u->set_encoded_fragment("g"); p.frag = "g"; look(" after set_encoded_fragment");
    u->set_user(""); p.user = ""; look(" after set_user");
    u->set_scheme("t"); p.scheme = "t"; look(" after set_scheme");
    u->set_port("2"); p.port = "2"; look(" after set_port");
    try { u->set_scheme("<"); fail("set_scheme(\"<\") is accepted"); } catch(urls::invalid_part const&) {}
    look(" after a refused change", true);
    c.nontrivial();
    LABEL(c, "longer than 4 GiB");
}

} // big
