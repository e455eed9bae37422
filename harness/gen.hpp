// Generators. Choice 0 is always the simplest.
#ifndef VERIF_GEN_HPP
#define VERIF_GEN_HPP

#include "engine.hpp"
#include "ref.hpp"

namespace gen {

using eng::Src;
using ref::str;
using ref::Parts;
using ref::Op;
using ref::Cls;

template<size_t N> char const* pick(Src& r, char const* const (&a)[N]) { return a[r.draw(N)]; }
inline char pick(Src& r, str const& s) { return s[r.draw(uint32_t(s.size()))]; }

// a word or number the sources mention, seldom
inline bool from_dict(Src& r, uint32_t one_in = 48) { return r.draw(one_in) == one_in - 1 && ! eng::dict().words.empty(); }
inline str word(Src& r) { auto& d = eng::dict().words; return d.empty() ? str() : d[r.draw(uint32_t(d.size()))]; }
inline str word_enc(Src& r, Cls k)
{
    str s = r.draw(2) ? ref::encode(k, word(r)) : word(r), t;
    for(char c : s) if(c == '%' || ref::allowed(k, static_cast<unsigned char>(c))) t += c;
    return ref::valid_enc(k, t) ? t : str();
}

// number of pieces
inline size_t length(Src& r)
{
    uint32_t k = r.draw(101);
    if(k == 100)
    {
        auto& d = eng::dict().nums;
        if(d.empty() || r.draw(2)) return r.draw(400);
        return d[r.draw(uint32_t(d.size()))] - 1 + r.draw(3);
    }
    if(k < 14) return 0;
    if(k < 40) return 1;
    if(k < 60) return 2;
    if(k < 72) return 3;
    if(k < 80) return 4;
    if(k < 88) return 5 + r.draw(4);
    if(k < 94) return 14 + r.draw(5);
    if(k < 97) return 30 + r.draw(6);
    if(k < 98) return 62 + r.draw(5);
    if(k < 99) return 126 + r.draw(6);
    k = r.draw(20);
    if(k < 12) return 254 + r.draw(5);
    if(k < 16) return 510 + r.draw(5);
    if(k < 19) return 1022 + r.draw(6);
    if(r.draw(4) == 3) return 65530 + r.draw(12);
    return 4094 + r.draw(6);
}

inline str repeat(str const& unit, size_t n)
{
    str s;
    if(unit.empty()) return s;
    while(s.size() < n) s += unit;
    s.resize(n);
    return s;
}

inline str triplet(Src& r, unsigned char c)
{
    static char const up[] = "0123456789ABCDEF", lo[] = "0123456789abcdef";
    uint32_t m = r.draw(4);
    str s = "%";
    s += (m & 1 ? lo : up)[c >> 4];
    s += (m & 2 ? lo : up)[c & 15];
    return s;
}

inline unsigned char any_byte(Src& r)
{
    uint32_t k = r.draw(6);
    if(k == 0) return 'a';
    if(k == 1) return "a0Zz-._~"[r.draw(8)];
    if(k == 2) return "%/?#[]@:&=+ !$'()*,;"[r.draw(20)];
    if(k == 3) return "\0\x01\x1f\x7f\x80\xff\xc3\xa9\"\\<>^`{|}"[r.draw(17)];
    return static_cast<unsigned char>(r.draw(256));
}

inline str bytes(Src& r, size_t n)
{
    str s;
    if(n <= 40) { for(size_t i = 0; i < n; ++i) s += char(any_byte(r)); return s; }
    str u; size_t k = 1 + r.draw(5);
    for(size_t i = 0; i < k; ++i) u += char(any_byte(r));
    return repeat(u, n);
}

inline str bytes(Src& r) { if(from_dict(r)) return word(r); return bytes(r, length(r)); }

inline str const& literals(Cls k)
{
    static str t[4];
    if(t[0].empty())
        for(int i = 0; i < 4; ++i) for(int c = 0; c < 256; ++c) if(ref::allowed(Cls(i), c) && ! ref::alpha(c) && ! ref::digit(c)) t[i] += char(c);
    return t[k];
}

// one valid piece of a component: a literal or a percent-triplet
inline str piece(Src& r, Cls k)
{
    switch(r.draw(8))
    {
    default: return str(1, "abcxyzABCXYZ0123456789"[r.draw(22)]);
    case 3: case 4: return str(1, pick(r, literals(k)));
    case 5: return triplet(r, static_cast<unsigned char>("/?#[]@:&=%. +aZ09\0\xff\x80"[r.draw(20)]));
    case 6: return triplet(r, static_cast<unsigned char>(r.draw(256)));
    case 7:
        if(k == ref::C_QUERY) return str(1, "&=&=?/:@"[r.draw(8)]);
        if(k == ref::C_PCHAR) return str(1, ":@.;="[r.draw(5)]);
        if(k == ref::C_USERINFO) return ":";
        return str(1, ".-_~!*"[r.draw(6)]);
    }
}

inline str enc_n(Src& r, Cls k, size_t n)
{
    str s;
    if(n <= 40) { for(size_t i = 0; i < n; ++i) s += piece(r, k); return s; }
    str u; size_t c = 1 + r.draw(4);
    for(size_t i = 0; i < c; ++i) u += piece(r, k);
    // whole units, so triplets stay whole
    while(s.size() < n) s += u;
    return s;
}

inline str enc(Src& r, Cls k) { if(from_dict(r)) return word_enc(r, k) + enc_n(r, k, r.draw(2)); return enc_n(r, k, length(r)); }
inline str enc1(Src& r, Cls k) { size_t n = length(r); return enc_n(r, k, n ? n : 1); }

inline str scheme(Src& r)
{
    switch(r.draw(6))
    {
    case 0: return "http";
    case 1: { static char const* const a[] = {"a", "ftp", "file", "https", "ws", "wss", "HTTP", "hTtPs", "x1", "Z+-.9", "h2", "mailto", "urn"}; return pick(r, a); }
    case 2: return str(1, "abzAZ"[r.draw(5)]);
    }
    if(from_dict(r))
    {
        str s;
        bool const up = r.draw(3) == 2;
        for(char c : word(r)) if(ref::alpha(c) || (! s.empty() && (ref::digit(c) || c == '+' || c == '-' || c == '.'))) s += up && c >= 'a' && c <= 'z' && r.draw(2) ? char(c - 32) : c;
        if(! s.empty()) return s;
    }
    str s(1, "abyzABYZ"[r.draw(8)]);
    size_t n = length(r);
    if(n > 40) return s + repeat(str(1, "a0+-."[r.draw(5)]) + "Q", n);
    for(size_t i = 0; i < n; ++i) s += "abzABZ019+-."[r.draw(12)];
    return s;
}

inline str dec_octet(Src& r)
{
    switch(r.draw(4))
    {
    case 0: return std::to_string(r.draw(10));
    case 1: { static char const* const a[] = {"0", "9", "10", "99", "100", "199", "200", "249", "250", "255", "1", "127"}; return pick(r, a); }
    }
    return std::to_string(r.draw(256));
}

inline str ipv4(Src& r) { str s = dec_octet(r); for(int i = 0; i < 3; ++i) s += "." + dec_octet(r); return s; }

inline str ipv4_near(Src& r)
{
    switch(r.draw(10))
    {
    case 0: return ipv4(r) + "a";
    case 1: return ipv4(r) + ".";
    case 2: { str s = dec_octet(r); for(int i = 0; i < 2; ++i) s += "." + dec_octet(r); return s; }
    case 3: return ipv4(r) + "." + dec_octet(r);
    case 4: return dec_octet(r) + "." + dec_octet(r) + "." + dec_octet(r) + "." + std::to_string(256 + r.draw(1000));
    case 5: { str s = "0" + dec_octet(r); for(int i = 0; i < 3; ++i) s += "." + dec_octet(r); return s; }
    case 6: return dec_octet(r) + "." + dec_octet(r) + "." + std::to_string(256 + r.draw(400)) + "." + dec_octet(r);
    case 7: return dec_octet(r) + ".." + dec_octet(r) + "." + dec_octet(r);
    case 8: return ipv4(r) + triplet(r, '0');
    default: return dec_octet(r) + "." + dec_octet(r) + "." + dec_octet(r) + ".0" + dec_octet(r);
    }
}

inline str h16(Src& r)
{
    static char const d[] = "0123456789abcdefABCDEF";
    str s; size_t n = 1 + r.draw(4);
    for(size_t i = 0; i < n; ++i) s += d[r.draw(22)];
    return s;
}

inline str h16s(Src& r, size_t n) { str s; for(size_t i = 0; i < n; ++i) { if(i) s += ':'; s += h16(r); } return s; }

inline str ipv6(Src& r)
{
    switch(r.draw(4))
    {
    case 0: { static char const* const a[] = {"::", "::1", "1::", "fe80::1", "::ffff:1.2.3.4", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:1.2.3.4"}; return pick(r, a); }
    case 1: return r.draw(2) ? h16s(r, 6) + ":" + ipv4(r) : h16s(r, 8);
    }
    size_t a = r.draw(8), b = r.draw(uint32_t(8 - a));
    str t;
    if(b >= 2 && r.draw(2)) t = b > 2 ? h16s(r, b - 2) + ":" + ipv4(r) : ipv4(r);
    else t = h16s(r, b);
    return h16s(r, a) + "::" + t;
}

inline str ipv6_near(Src& r)
{
    switch(r.draw(9))
    {
    case 0: return h16s(r, 1 + r.draw(10));
    case 1: { size_t a = r.draw(9), b = r.draw(9); return h16s(r, a) + "::" + h16s(r, b); }
    case 2: return h16s(r, r.draw(8)) + (r.draw(2) ? "::" : ":") + (r.draw(2) ? ipv4(r) : ipv4_near(r));
    case 3: return h16s(r, 1 + r.draw(3)) + "::" + h16s(r, r.draw(3)) + "::" + h16s(r, r.draw(3));
    case 4: return ":" + h16s(r, 1 + r.draw(8));
    case 5: return h16s(r, 1 + r.draw(8)) + ":";
    case 6: return ipv6(r) + str(1, "g:.]0%a"[r.draw(7)]);
    case 7: return h16(r) + h16(r) + "::" + h16(r);
    default: { str s = ipv6(r); if(! s.empty()) s.erase(r.draw(uint32_t(s.size())), 1); return s; }
    }
}

inline str ipvfuture(Src& r)
{
    str s(1, r.draw(2) ? 'V' : 'v');
    s += h16(r); if(r.draw(3) == 2) s += h16(r);
    s += ".";
    size_t n = 1 + r.draw(5);
    for(size_t i = 0; i < n; ++i) s += r.draw(2) ? pick(r, literals(ref::C_USERINFO)) : "a0Zf"[r.draw(4)];
    return s;
}

inline str ipvfuture_near(Src& r)
{
    switch(r.draw(8))
    {
    case 0: return "v1.";
    case 1: return "v.a";
    case 2: return "v" + h16(r);
    case 3: return "vg.a";
    case 4: return ipvfuture(r) + str(1, "@/[% ?#"[r.draw(7)]);
    case 5: return ipvfuture(r).substr(1);
    case 6: return "v1a" + str(1, "gxz-_"[r.draw(5)]) + ".x";
    default: { str s = ipvfuture(r); s.erase(r.draw(uint32_t(s.size())), 1); return s; }
    }
}

// a valid host, possibly empty
inline str host(Src& r)
{
    switch(r.draw(10))
    {
    case 0: return "h";
    case 1: return "";
    case 2: return ipv4(r);
    case 3: { str s = ipv4_near(r); return s; }
    case 4: return "[" + ipv6(r) + "]";
    case 5: return "[" + ipvfuture(r) + "]";
    case 6: { static char const* const a[] = {"www.example.com", "localhost", "1.2.3.4", "1", "0", "255.255.255.255", "1.2.3", "x.y"}; return pick(r, a); }
    }
    return enc(r, ref::C_REG);
}

inline str bad_host(Src& r)
{
    switch(r.draw(4))
    {
    case 0: return "[" + ipv6_near(r) + "]";
    case 1: return "[" + ipvfuture_near(r) + "]";
    case 2: { static char const* const a[] = {"[", "]", "[]", "[::1", "::1]", "[::1]x", "x[::1]", "[[::1]]", "[::1]]", "[1.2.3.4]", "a:b", "a b", "a%", "a%1", "a%4g", "a@b", "a/b", "[v1.a]1", "[::1%25eth0]", "[v1.a", "[fe80::1]."}; return pick(r, a); }
    }
    str s = host(r);
    s.insert(r.draw(uint32_t(s.size() + 1)), 1, char(any_byte(r)));
    return s;
}

inline str port(Src& r)
{
    switch(r.draw(4))
    {
    case 0: { static char const* const a[] = {"80", "", "0", "00", "443", "8080", "65535", "65536", "0080", "4294967296", "99999999999999999999"}; return pick(r, a); }
    case 1: return std::to_string(r.draw(70000));
    }
    if(from_dict(r) && ! eng::dict().nums.empty()) return std::to_string(eng::dict().nums[r.draw(uint32_t(eng::dict().nums.size()))]);
    size_t n = length(r);
    if(n > 40) return repeat("7", n);
    str s; for(size_t i = 0; i < n; ++i) s += char('0' + r.draw(10));
    return s;
}

inline str segment(Src& r)
{
    switch(r.draw(8))
    {
    case 0: return "a";
    case 1: return "";
    case 2: { static char const* const a[] = {".", "..", "b:c", ":", "@", "a@b", "%2F", "%2f", "index.htm", "a;b=c", "%00", "x:y:z", "1"}; return pick(r, a); }
    }
    return enc(r, ref::C_PCHAR);
}

inline size_t count(Src& r)
{
    uint32_t k = r.draw(40);
    if(k < 34) return k % 5;
    if(k < 38) return 5 + r.draw(5);
    return 10 + r.draw(30);
}

// a path valid in the given context
inline str path(Src& r, bool scheme, bool auth)
{
    size_t n = count(r);
    if(n == 0) return "";
    bool abs = auth || r.draw(2) == 0;
    std::vector<str> v;
    for(size_t i = 0; i < n; ++i) v.push_back(segment(r));
    if(! auth && v[0].empty() && (! abs || n > 1)) v[0] = "s";
    if(! abs && ! scheme)
        for(auto& c : v[0]) if(c == ':') c = '_';
    return ref::join(v, abs);
}

inline str qpiece(Src& r)
{
    switch(r.draw(8))
    {
    case 0: return "k";
    case 1: return "=";
    case 2: return "&";
    case 3: return "&=";
    case 4: { static char const* const a[] = {"a=1", "a=b&c=d", "%3D", "%26", "==", "&&", "k=v&", "/", "?", "x&y=z", "k%65y=v"}; return pick(r, a); }
    default: return piece(r, ref::C_QUERY);
    }
}

inline str query(Src& r)
{
    if(from_dict(r)) { str s = word_enc(r, ref::C_QUERY); if(r.draw(2)) s += "=" + word_enc(r, ref::C_QUERY); if(r.draw(2)) s = "k=v&" + s; return s; }
    size_t n = length(r);
    if(n > 40) { str u = qpiece(r) + qpiece(r) + qpiece(r); return n ? [&]{ str s; while(s.size() < n) s += u; return s; }() : str(); }
    str s; for(size_t i = 0; i < n; ++i) s += qpiece(r);
    return s;
}

inline void authority(Src& r, Parts& p)
{
    p.has_auth = true;
    if(r.draw(5) >= 3)
    {
        p.has_ui = true;
        p.user = enc(r, ref::C_USER);
        if(r.draw(2)) { p.has_pw = true; p.pw = enc(r, ref::C_USERINFO); }
    }
    p.host = host(r);
    if(r.draw(3) == 2) { p.has_port = true; p.port = port(r); }
}

// a valid URL as components
inline Parts parts(Src& r)
{
    Parts p;
    if(r.draw(5) >= 2) { p.has_scheme = true; p.scheme = scheme(r); }
    if(r.draw(5) >= 2) authority(r, p);
    p.path = path(r, p.has_scheme, p.has_auth);
    if(r.draw(2)) { p.has_query = true; p.query = query(r); }
    if(r.draw(3) == 2) { p.has_frag = true; p.frag = enc(r, ref::C_QUERY); }
    return p;
}

// numbers of list elements around those a narrowed counter cannot hold
inline size_t many(Src& r)
{
    switch(r.draw(4))
    {
    case 0: return 254 + r.draw(5);
    case 1: return 65534 + r.draw(5);
    case 2: return 65536 + 256 * r.draw(3) + r.draw(3);
    default: return 32766 + r.draw(5);
    }
}

// an absolute path of many segments, valid with an authority
inline str many_segments(Src& r)
{
    size_t const n = many(r);
    static char const* const u[] = {"/a", "/", "/b:c", "/%2F", "//x", "/a/", "/."};
    str s = pick(r, u), t;
    size_t const k = std::count(s.begin(), s.end(), '/');
    for(size_t i = 0; i < n; i += k) t += s;
    return t;
}

// a query of many parameters
inline str many_params(Src& r)
{
    size_t const n = many(r);
    static char const* const u[] = {"&k=v", "&", "&=", "&k", "&k=", "&a&b=c", "&%26=%3D"};
    str s = pick(r, u), t = r.draw(2) ? "k=v" : "";
    size_t const k = std::count(s.begin(), s.end(), '&');
    for(size_t i = 1; i < n; i += k) t += s;
    return t;
}

// edits a string so it is often just about invalid
inline str mutate(Src& r, str s)
{
    static char const sp[] = ":/?#[]@%&=.+-0 1aFg\0\x7f\x80\xff^|\\";
    size_t n = 1 + r.draw(3);
    for(size_t i = 0; i < n; ++i)
    {
        size_t at = r.draw(uint32_t(s.size() + 1));
        switch(r.draw(7))
        {
        case 6: if(from_dict(r, 2)) s.insert(at, word(r)); break;
        case 0: if(at < s.size()) s.erase(at, 1); break;
        case 1: s.insert(at, 1, sp[r.draw(27)]); break;
        case 2: if(at < s.size()) s[at] = sp[r.draw(27)]; break;
        case 3: if(at < s.size()) s[at] = char(r.draw(256)); break;
        case 4: s.resize(at); break;
        case 5: { size_t b = r.draw(uint32_t(s.size() + 1)); if(at > b) std::swap(at, b); s.insert(at, s.substr(at, std::min<size_t>(b - at, 8))); break; }
        }
    }
    return s;
}

inline str raw(Src& r)
{
    size_t n = length(r);
    str s;
    if(n > 40) return bytes(r, n);
    if(r.draw(2)) { for(size_t i = 0; i < n; ++i) s += char(any_byte(r)); return s; }
    for(size_t i = 0; i < n; ++i) s += "ah:/?#[]@%1.v=&2Ff0"[r.draw(19)];
    return s;
}

inline str any_url(Src& r)
{
    if(from_dict(r)) return word(r);
    switch(r.draw(6))
    {
    case 0: case 1: return parts(r).text();
    case 2: case 3: return mutate(r, parts(r).text());
    case 4: { // bad host inside an otherwise valid URL
        Parts p = parts(r);
        if(! p.has_auth) { p.has_auth = true; p.path = path(r, p.has_scheme, true); }
        p.host = bad_host(r);
        return p.text(); }
    default: return raw(r);
    }
}

// an argument for op.k. Mostly valid.
inline str argument(Src& r, ref::Kind k)
{
    using namespace ref;
    uint32_t w = r.draw(16);
    if(w == 1) return "";
    bool odd = w >= 13;
    auto m = [&](str s) { return odd ? mutate(r, s) : s; };
    switch(k)
    {
    case SET_URL: return odd ? any_url(r) : parts(r).text();
    case SET_ORIGIN: { Parts p = parts(r); if(! p.has_scheme && r.draw(8)) { p.has_scheme = true; p.scheme = scheme(r); }
        if(r.draw(6)) { p.has_query = p.has_frag = false; }
        if(r.draw(2)) p.path.clear();
        return m(p.text()); }
    case SET_SCHEME: return m(scheme(r));
    case SET_AUTHORITY: { Parts p; authority(r, p); if(odd && r.draw(2)) p.host = bad_host(r); return m(p.authority()); }
    case SET_USERINFO: return m(enc(r, C_USERINFO));
    case SET_USERINFO_PART: return m(enc(r, C_USERINFO) + (r.draw(16) == 15 ? "" : "@"));
    case SET_USER: case SET_PW: case SET_QUERY: case SET_FRAG: case SEG_INSERT: case SEG_REPLACE:
        switch(r.draw(3)) { case 0: return enc(r, C_USERINFO); case 1: return k == SET_QUERY ? query(r) : segment(r); default: return bytes(r); }
    case SET_ENC_USER: return m(enc(r, C_USER));
    case SET_ENC_PW: return m(enc(r, C_USERINFO));
    case SET_PW_PART: return m((r.draw(16) == 15 ? "" : ":") + enc(r, C_USERINFO));
    case SET_HOST: switch(r.draw(4)) { case 0: return host(r); case 1: return bad_host(r); case 2: return ref::decode(host(r)); default: return bytes(r); }
    case SET_ENC_HOST: return odd ? bad_host(r) : host(r);
    case SET_PORT: return m(port(r));
    case SET_PORT_PART: return m((r.draw(16) == 15 ? "" : ":") + port(r));
    case SET_PATH: switch(r.draw(4)) { case 0: return m(path(r, true, true)); case 1: return m(path(r, false, false)); case 2: return m(path(r, true, false)); default: return m("/" + path(r, true, true)); }
    case SET_ENC_QUERY: return m(query(r));
    case SET_QUERY_PART: return m((r.draw(16) == 15 ? "" : "?") + query(r));
    case SET_ENC_FRAG: return m(enc(r, C_QUERY));
    case SET_FRAG_PART: return m((r.draw(16) == 15 ? "" : "#") + enc(r, C_QUERY));
    case SEG_INSERT_ENC: case SEG_REPLACE_ENC: return m(segment(r));
    default: return "";
    }
}

// a small change of a string: none, letter case, one byte, one more, one less, another spelling
inline str nudge(Src& r, str s)
{
    size_t const at = s.empty() ? 0 : r.draw(uint32_t(s.size()));
    auto flip = [](char& c) { if(ref::alpha(c)) c = char(c ^ 32); };
    switch(r.draw(8))
    {
    default: break; // the same
    case 2: for(char& c : s) flip(c); break;
    case 3: if(! s.empty()) flip(s[at]); break;
    case 4: if(! s.empty()) s[at] = "abz019-.%:"[r.draw(10)]; break;
    case 5: if(! s.empty()) s.pop_back(); break;
    case 6: s += "a0z./"[r.draw(5)]; break;
    case 7: // a byte as an escape, or an escape as its byte
        if(s.empty()) break;
        if(s[at] == '%' && s.size() - at > 2 && ref::hex(s[at + 1]) && ref::hex(s[at + 2])) { char b = ref::decode(s.substr(at, 3))[0]; s.replace(at, 3, 1, b); }
        else { char b[4]; std::snprintf(b, 4, r.draw(2) ? "%%%02x" : "%%%02X", unsigned((unsigned char)s[at])); s.replace(at, 1, b); }
    }
    return s;
}

// an argument for k made from what the url holds now
inline str related(Src& r, Parts const& p, ref::Kind k)
{
    using namespace ref;
    auto part = [&](uint32_t w) -> str {
        switch(w)
        {
        case 0: return p.scheme; case 1: return p.user; case 2: return p.pw; case 3: return p.host; case 4: return p.port; case 5: return p.path;
        case 6: return p.query; case 7: return p.frag; case 8: return p.userinfo(); case 9: return p.authority(); case 10: return p.origin();
        default: { auto v = p.segments(); return v.empty() ? str() : v[r.draw(uint32_t(v.size()))]; }
        }
    };
    bool const other = r.draw(5) == 4;
    str s;
    if(other) s = part(r.draw(12));
    bool const plain = k == SET_USER || k == SET_PW || k == SET_HOST || k == SET_QUERY || k == SET_FRAG || k == SEG_INSERT || k == SEG_REPLACE;
    switch(k)
    {
    case SET_URL: s = p.text(); break;
    case SET_ORIGIN: if(! other) s = p.origin(); break;
    case SET_SCHEME: if(! other) s = p.scheme; break;
    case SET_AUTHORITY: if(! other) s = p.authority(); break;
    case SET_USERINFO: case SET_USERINFO_PART: if(! other) s = p.userinfo(); break;
    case SET_USER: case SET_ENC_USER: if(! other) s = p.user; break;
    case SET_PW: case SET_ENC_PW: case SET_PW_PART: if(! other) s = p.pw; break;
    case SET_HOST: case SET_ENC_HOST: if(! other) s = p.host; break;
    case SET_PORT: case SET_PORT_PART: if(! other) s = p.port; break;
    case SET_PATH: if(! other) s = p.path; break;
    case SET_QUERY: case SET_ENC_QUERY: case SET_QUERY_PART: if(! other) s = p.query; break;
    case SET_FRAG: case SET_ENC_FRAG: case SET_FRAG_PART: if(! other) s = p.frag; break;
    case SEG_INSERT: case SEG_INSERT_ENC: case SEG_REPLACE: case SEG_REPLACE_ENC: if(! other) s = part(11); break;
    default: return "";
    }
    if(plain && r.draw(3)) s = ref::decode(s);
    s = nudge(r, s);
    switch(k)
    {
    case SET_USERINFO_PART: return s + "@";
    case SET_PW_PART: case SET_PORT_PART: return ":" + s;
    case SET_QUERY_PART: return "?" + s;
    case SET_FRAG_PART: return "#" + s;
    default: return s;
    }
}

inline uint32_t number(Src& r)
{
    switch(r.draw(5))
    {
    default: return r.draw(70000);
    case 2: if(! eng::dict().nums.empty() && r.draw(2)) return eng::dict().nums[r.draw(uint32_t(eng::dict().nums.size()))]; return r.draw(1000);
    case 3: return r.draw(2) ? 4294967295u - r.draw(3) : 1000000000u * r.draw(5);
    case 4: // around powers of ten and of two, and of any length
        uint32_t n = 1, k = r.draw(10), w = r.draw(3);
        if(w == 0) { while(k--) n *= 10; return n - 1 + r.draw(3); }
        if(w == 1) return (1u << r.draw(32)) - 1 + r.draw(3);
        return ((r.draw(65536) << 16) | r.draw(65536)) >> r.draw(32);
    }
}

// an operation applicable to the state p (segment positions in range). The erasures that
// leave a path the grammar cannot express are a known finding and are not generated.
inline Op op_of(Src& r, Parts const& p, ref::Kind k)
{
    using namespace ref;
    Op o; o.k = k;
    auto v = p.segments();
    if(k == SEG_ERASE || k == SEG_ERASE_RANGE || k == SEG_REPLACE || k == SEG_REPLACE_ENC)
        if(v.empty() && ! (k == SEG_ERASE_RANGE)) { o.k = SEG_INSERT_ENC; k = o.k; }
    o.s = r.draw(10) == 9 ? related(r, p, k) : argument(r, k);
    switch(k)
    {
    case SET_PORT_N: o.n = p.port.size() && p.port.size() < 10 && r.draw(10) == 9 ? uint32_t(std::stoul(p.port)) : number(r); break;
    case SEG_INSERT: case SEG_INSERT_ENC: o.i = r.draw(uint32_t(v.size() + 1)); break;
    case SEG_REPLACE: case SEG_REPLACE_ENC: o.i = r.draw(uint32_t(v.size())); break;
    case SEG_ERASE: o.i = r.draw(uint32_t(v.size())); break;
    case SEG_ERASE_RANGE: o.i = r.draw(uint32_t(v.size() + 1)); o.j = o.i + r.draw(uint32_t(v.size() - o.i + 1)); break;
    default: break;
    }
    if(k == SEG_ERASE || k == SEG_ERASE_RANGE)
    {
        Parts t = p;
        if(! ref::apply(t, o)) { o.k = SEG_INSERT_ENC; o.s = "z"; }
    }
    return o;
}

inline Op op(Src& r, Parts const& p)
{
    // segment edits a little more often than their number
    uint32_t k = r.draw(ref::N_KINDS + 6);
    if(k >= ref::N_KINDS) k = ref::SEG_INSERT + (k - ref::N_KINDS);
    return op_of(r, p, ref::Kind(k));
}

inline str show(Op const& o)
{
    str s = ref::kind_name(o.k);
    using namespace ref;
    switch(o.k)
    {
    case NORMALIZE: case NORMALIZE_SCHEME: return s + "()";
    case SET_PORT_N: return s + "(" + std::to_string(o.n) + ")";
    case SEG_ERASE: return s + "(#" + std::to_string(o.i) + ")";
    case SEG_ERASE_RANGE: return s + "(#" + std::to_string(o.i) + ", #" + std::to_string(o.j) + ")";
    case SEG_INSERT: case SEG_INSERT_ENC: case SEG_REPLACE: case SEG_REPLACE_ENC:
        return s + "(#" + std::to_string(o.i) + ", " + eng::quote(o.s) + ")";
    default: return s + "(" + eng::quote(o.s) + ")";
    }
}

} // gen

#endif
