// Reference semantics of RFC 3986 and of the documented modification functions.
// Written from the RFC and the documentation, sharing nothing with the library.
#ifndef VERIF_REF_HPP
#define VERIF_REF_HPP

#include <string>
#include <vector>
#include <utility>
#include <cstring>

namespace ref {

using str = std::string;

inline bool alpha(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
inline bool digit(unsigned char c) { return c >= '0' && c <= '9'; }
inline bool hex(unsigned char c) { return digit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
inline bool unreserved(unsigned char c) { return alpha(c) || digit(c) || c == '-' || c == '.' || c == '_' || c == '~'; }
inline bool subdelim(unsigned char c) { return c != 0 && std::strchr("!$&'()*+,;=", c) != nullptr; }

enum Cls { C_REG, C_USER = C_REG, C_USERINFO, C_PCHAR, C_QUERY }; // literal character classes

inline bool allowed(Cls k, unsigned char c)
{
    if(unreserved(c) || subdelim(c)) return true;
    switch(k)
    {
    case C_REG: return false;
    case C_USERINFO: return c == ':';
    case C_PCHAR: return c == ':' || c == '@';
    case C_QUERY: return c == ':' || c == '@' || c == '/' || c == '?';
    }
    return false;
}

inline bool valid_enc(Cls k, str const& s)
{
    for(size_t i = 0; i < s.size(); ++i)
    {
        if(s[i] == '%')
        {
            if(s.size() - i < 3 || ! hex(s[i + 1]) || ! hex(s[i + 2])) return false;
            i += 2;
        }
        else if(! allowed(k, s[i])) return false;
    }
    return true;
}

inline int hexval(unsigned char c) { return digit(c) ? c - '0' : (c | 32) - 'a' + 10; }

inline str decode(str const& s)
{
    str r;
    for(size_t i = 0; i < s.size(); ++i)
        if(s[i] == '%') { r += char(hexval(s[i + 1]) * 16 + hexval(s[i + 2])); i += 2; }
        else r += s[i];
    return r;
}

inline str encode(Cls k, str const& s)
{
    str r;
    for(unsigned char c : s)
        if(allowed(k, c)) r += char(c);
        else { char const* h = "0123456789ABCDEF"; r += '%'; r += h[c / 16]; r += h[c % 16]; }
    return r;
}

inline bool valid_scheme(str const& s)
{
    if(s.empty() || ! alpha(s[0])) return false;
    for(unsigned char c : s) if(! alpha(c) && ! digit(c) && c != '+' && c != '-' && c != '.') return false;
    return true;
}

inline std::vector<str> split(str const& s, char c)
{
    std::vector<str> v; str cur;
    for(char x : s) if(x == c) { v.push_back(cur); cur.clear(); } else cur += x;
    v.push_back(cur);
    return v;
}

inline bool valid_ipv4(str const& s)
{
    auto v = split(s, '.');
    if(v.size() != 4) return false;
    for(auto& p : v)
    {
        if(p.empty() || p.size() > 3) return false;
        int n = 0;
        for(unsigned char c : p) { if(! digit(c)) return false; n = n * 10 + (c - '0'); }
        if(n > 255 || (p.size() > 1 && p[0] == '0')) return false;
    }
    return true;
}

// number of 16-bit units in a ':'-separated list, -1 when malformed.
inline int v6_units(str const& s, bool v4_allowed)
{
    if(s.empty()) return 0;
    auto v = split(s, ':');
    int n = 0;
    for(size_t i = 0; i < v.size(); ++i)
    {
        if(v4_allowed && i + 1 == v.size() && v[i].find('.') != str::npos)
        {
            if(! valid_ipv4(v[i])) return -1;
            n += 2;
            continue;
        }
        if(v[i].empty() || v[i].size() > 4) return -1;
        for(unsigned char c : v[i]) if(! hex(c)) return -1;
        ++n;
    }
    return n;
}

inline bool valid_ipv6(str const& s)
{
    auto p = s.find("::");
    if(p == str::npos) return v6_units(s, true) == 8;
    // the left side of "::" ends in h16, never an IPv4 address
    int a = v6_units(s.substr(0, p), false), b = v6_units(s.substr(p + 2), true);
    return a >= 0 && b >= 0 && a + b <= 7;
}

inline bool valid_ipvfuture(str const& s)
{
    if(s.size() < 4 || (s[0] != 'v' && s[0] != 'V')) return false;
    auto d = s.find('.');
    if(d == str::npos || d < 2 || d + 1 == s.size()) return false;
    for(size_t i = 1; i < d; ++i) if(! hex(s[i])) return false;
    for(size_t i = d + 1; i < s.size(); ++i) if(! allowed(C_USERINFO, s[i])) return false;
    return true;
}

enum Host { H_NONE, H_NAME, H_IPV4, H_IPV6, H_FUTURE, H_BAD };

// classifies a complete host
inline Host host_kind(str const& s)
{
    if(s.empty()) return H_NONE;
    if(s[0] == '[')
    {
        if(s.size() < 2 || s.back() != ']') return H_BAD;
        str in = s.substr(1, s.size() - 2);
        if(valid_ipv6(in)) return H_IPV6;
        if(valid_ipvfuture(in)) return H_FUTURE;
        return H_BAD;
    }
    if(valid_ipv4(s)) return H_IPV4;
    return valid_enc(C_REG, s) ? H_NAME : H_BAD;
}

inline char const* host_name(Host h)
{
    switch(h) { case H_NONE: return "none"; case H_NAME: return "name"; case H_IPV4: return "ipv4";
        case H_IPV6: return "ipv6"; case H_FUTURE: return "ipvfuture"; default: return "bad"; }
}

// A URL as its components. Also the model state of the modification functions.
struct Parts
{
    bool has_scheme = false, has_auth = false, has_ui = false, has_pw = false,
        has_port = false, has_query = false, has_frag = false;
    str scheme, user, pw, host, port, path, query, frag;

    str userinfo() const { return has_ui ? user + (has_pw ? ":" + pw : str()) : str(); }
    str userinfo_part() const { return has_ui ? userinfo() + "@" : str(); }
    str port_part() const { return has_port ? ":" + port : str(); }
    str host_and_port() const { return host + port_part(); }
    str authority() const { return has_auth ? userinfo_part() + host_and_port() : str(); }
    str origin() const { return (has_scheme ? scheme + ":" : str()) + (has_auth ? "//" + authority() : str()); }
    str query_part() const { return has_query ? "?" + query : str(); }
    str frag_part() const { return has_frag ? "#" + frag : str(); }
    str pw_part() const { return has_pw ? ":" + pw : str(); }
    str text() const { return origin() + path + query_part() + frag_part(); }
    Host kind() const { return host_kind(host); }
    bool absolute() const { return ! path.empty() && path[0] == '/'; }
    std::vector<str> segments() const { return segs(path); }
    std::vector<std::pair<str, str>> params() const
    {
        std::vector<std::pair<str, str>> v;
        if(! has_query) return v;
        size_t i = 0;
        for(;;)
        {
            auto e = query.find('=', i);
            if(e == str::npos) { v.push_back({query.substr(i), ""}); return v; }
            auto a = query.find('&', e);
            if(a == str::npos) { v.push_back({query.substr(i, e - i), query.substr(e + 1)}); return v; }
            v.push_back({query.substr(i, e - i), query.substr(e + 1, a - e - 1)});
            i = a + 1;
        }
    }
    static std::vector<str> segs(str const& p)
    {
        if(p.empty()) return {};
        return split(p[0] == '/' ? p.substr(1) : p, '/');
    }
};

inline bool operator==(Parts const& a, Parts const& b)
{
    return a.has_scheme == b.has_scheme && a.has_auth == b.has_auth && a.has_ui == b.has_ui && a.has_pw == b.has_pw &&
        a.has_port == b.has_port && a.has_query == b.has_query && a.has_frag == b.has_frag && a.scheme == b.scheme &&
        a.user == b.user && a.pw == b.pw && a.host == b.host && a.port == b.port && a.path == b.path &&
        a.query == b.query && a.frag == b.frag;
}

inline bool valid_path_chars(str const& p)
{
    for(auto& s : split(p, '/')) if(! valid_enc(C_PCHAR, s)) return false;
    return true;
}

inline bool parse_authority(str const& a, Parts& p)
{
    p.has_auth = true;
    str hp = a;
    auto at = a.find('@');
    if(at != str::npos)
    {
        p.has_ui = true;
        str ui = a.substr(0, at);
        hp = a.substr(at + 1);
        if(! valid_enc(C_USERINFO, ui)) return false;
        auto c = ui.find(':');
        p.user = ui.substr(0, c);
        if(c != str::npos) { p.has_pw = true; p.pw = ui.substr(c + 1); }
    }
    size_t e;
    if(! hp.empty() && hp[0] == '[')
    {
        e = hp.find(']');
        if(e == str::npos) return false;
        ++e;
    }
    else
    {
        e = hp.find(':');
        if(e == str::npos) e = hp.size();
    }
    p.host = hp.substr(0, e);
    if(host_kind(p.host) == H_BAD) return false;
    if(e < hp.size())
    {
        if(hp[e] != ':') return false;
        p.has_port = true;
        p.port = hp.substr(e + 1);
        for(unsigned char c : p.port) if(! digit(c)) return false;
    }
    return true;
}

inline bool parse(str s, Parts& p)
{
    p = Parts();
    auto h = s.find('#');
    if(h != str::npos)
    {
        p.has_frag = true; p.frag = s.substr(h + 1); s.resize(h);
        if(! valid_enc(C_QUERY, p.frag)) return false;
    }
    auto q = s.find('?');
    if(q != str::npos)
    {
        p.has_query = true; p.query = s.substr(q + 1); s.resize(q);
        if(! valid_enc(C_QUERY, p.query)) return false;
    }
    auto c = s.find_first_of(":/");
    if(c != str::npos && s[c] == ':')
    {
        p.has_scheme = true; p.scheme = s.substr(0, c); s.erase(0, c + 1);
        if(! valid_scheme(p.scheme)) return false;
    }
    if(s.compare(0, 2, "//") == 0)
    {
        auto e = s.find('/', 2);
        if(e == str::npos) e = s.size();
        if(! parse_authority(s.substr(2, e - 2), p)) return false;
        s.erase(0, e);
    }
    p.path = s;
    return valid_path_chars(s);
}

inline bool valid(str const& s) { Parts p; return parse(s, p); }

// whether a path may stand in a URL with or without scheme and authority
inline bool path_ok(str const& p, bool scheme, bool auth)
{
    if(p.empty()) return true;
    if(auth) return p[0] == '/';
    if(p[0] == '/') return p.compare(0, 2, "//") != 0;
    return scheme || p.substr(0, p.find('/')).find(':') == str::npos;
}

// the colon is allowed in a first segment only behind a scheme; the first segment of a relative path is not empty
inline bool list_ok(std::vector<str> const& v, bool absolute, bool scheme, bool auth)
{
    if(v.empty()) return true;
    if(absolute) return auth || v.size() == 1 || ! v[0].empty();
    return ! v[0].empty() && (scheme || v[0].find(':') == str::npos);
}

inline str join(std::vector<str> const& v, bool absolute)
{
    str r;
    for(size_t i = 0; i < v.size(); ++i) { if(i || absolute) r += '/'; r += v[i]; }
    return r;
}

//----------------------------------------------------------

enum Kind {
    SET_URL, SET_ORIGIN, SET_SCHEME, SET_AUTHORITY, SET_USERINFO, SET_USERINFO_PART, SET_USER, SET_ENC_USER,
    SET_PW, SET_ENC_PW, SET_PW_PART, SET_HOST, SET_ENC_HOST, SET_PORT_N, SET_PORT, SET_PORT_PART, SET_PATH,
    SET_QUERY, SET_ENC_QUERY, SET_QUERY_PART, SET_FRAG, SET_ENC_FRAG, SET_FRAG_PART, NORMALIZE, NORMALIZE_SCHEME,
    SEG_INSERT, SEG_INSERT_ENC, SEG_REPLACE, SEG_REPLACE_ENC, SEG_ERASE, SEG_ERASE_RANGE, N_KINDS };

inline char const* kind_name(int k)
{
    static char const* const n[] = {
        "set_encoded_url", "set_encoded_origin", "set_scheme", "set_encoded_authority", "set_encoded_userinfo",
        "set_userinfo_part", "set_user", "set_encoded_user", "set_password", "set_encoded_password", "set_password_part",
        "set_host", "set_encoded_host", "set_port(unsigned)", "set_port", "set_port_part", "set_encoded_path",
        "set_query", "set_encoded_query", "set_query_part", "set_fragment", "set_encoded_fragment", "set_fragment_part",
        "normalize", "normalize_scheme", "segments().insert", "segments().insert_encoded", "segments().replace",
        "segments().replace_encoded", "segments().erase", "segments().erase(range)" };
    return n[k];
}

struct Op { Kind k = SET_URL; str s; unsigned n = 0; size_t i = 0, j = 0; };

inline void drop_auth(Parts& p) { p.has_auth = p.has_ui = p.has_pw = p.has_port = false; p.user.clear(); p.pw.clear(); p.host.clear(); p.port.clear(); }
inline void drop_ui(Parts& p) { p.has_ui = p.has_pw = false; p.user.clear(); p.pw.clear(); }

// Applies an operation. Returns false, leaving p alone, when it must be refused.
inline bool apply(Parts& p, Op const& op)
{
    Parts r = p;
    str const& s = op.s;
    auto need_auth = [&] { r.has_auth = true; };
    auto set_port = [&](str const& v) {
        if(v.empty())
        {
            if(r.has_auth && ! r.has_ui && r.host.empty()) drop_auth(r);
            else { r.has_port = false; r.port.clear(); }
            return true;
        }
        for(unsigned char c : v) if(! digit(c)) return false;
        need_auth(); r.has_port = true; r.port = v;
        return true;
    };
    auto set_userinfo = [&](str const& v) {
        if(v.empty())
        {
            if(r.host.empty() && ! r.has_port) drop_auth(r); else drop_ui(r);
            return true;
        }
        if(! valid_enc(C_USERINFO, v)) return false;
        need_auth(); r.has_ui = true;
        auto c = v.find(':');
        r.user = v.substr(0, c);
        r.has_pw = c != str::npos;
        r.pw = r.has_pw ? v.substr(c + 1) : str();
        return true;
    };
    auto set_user = [&](str const& v) {
        if(v.empty())
        {
            if(! r.has_ui) return;
            if(r.has_pw) r.user.clear(); else drop_ui(r);
            return;
        }
        need_auth(); r.has_ui = true; r.user = v;
    };
    auto clear_pw = [&] {
        if(! r.has_ui) return;
        if(r.user.empty()) drop_ui(r);
        else { r.has_pw = false; r.pw.clear(); }
    };
    auto set_pw = [&](str const& v) { need_auth(); r.has_ui = r.has_pw = true; r.pw = v; };
    auto set_host = [&](str const& v) {
        if(v.empty())
        {
            if(r.has_auth && ! r.has_ui && ! r.has_port) drop_auth(r);
            else r.host.clear();
            return;
        }
        need_auth(); r.host = v;
    };
    auto edit = [&](std::vector<str> v, bool abs) {
        if(! list_ok(v, abs, r.has_scheme, r.has_auth)) return false;
        r.path = join(v, abs);
        return true;
    };
    switch(op.k)
    {
    case SET_URL: if(! parse(s, r)) return false; break;
    case SET_ORIGIN:
    {
        if(s.empty()) { r.has_scheme = false; r.scheme.clear(); drop_auth(r); break; }
        Parts o;
        if(! parse(s, o) || ! o.has_scheme || o.has_query || o.has_frag) return false;
        o.path = r.path; o.has_query = r.has_query; o.query = r.query; o.has_frag = r.has_frag; o.frag = r.frag;
        r = o;
        break;
    }
    case SET_SCHEME:
        if(s.empty()) { r.has_scheme = false; r.scheme.clear(); break; }
        if(! valid_scheme(s)) return false;
        r.has_scheme = true; r.scheme = s;
        break;
    case SET_AUTHORITY:
        if(s.empty()) { drop_auth(r); break; }
        drop_auth(r);
        if(s.find_first_of("/?#") != str::npos || ! parse_authority(s, r)) return false;
        break;
    case SET_USERINFO: if(! set_userinfo(s)) return false; break;
    case SET_USERINFO_PART:
        if(s.empty()) { set_userinfo(s); break; }
        if(s.back() != '@') return false;
        if(! set_userinfo(s.substr(0, s.size() - 1))) return false;
        break;
    case SET_USER: set_user(encode(C_USER, s)); break;
    case SET_ENC_USER: if(! valid_enc(C_USER, s)) return false; set_user(s); break;
    case SET_PW: if(s.empty()) clear_pw(); else set_pw(encode(C_USERINFO, s)); break;
    case SET_ENC_PW:
        if(s.empty()) { clear_pw(); break; }
        if(s[0] == ':' || ! valid_enc(C_USERINFO, s)) return false;
        set_pw(s);
        break;
    case SET_PW_PART:
        if(s.empty()) { clear_pw(); break; }
        if(s[0] != ':' || s.compare(0, 2, "::") == 0 || ! valid_enc(C_USERINFO, s)) return false;
        set_pw(s.substr(1));
        break;
    case SET_HOST:
    {
        auto k = host_kind(s);
        set_host(k == H_IPV4 || k == H_IPV6 || k == H_FUTURE ? s : encode(C_REG, s));
        break;
    }
    case SET_ENC_HOST: if(host_kind(s) == H_BAD) return false; set_host(s); break;
    case SET_PORT_N: set_port(std::to_string(op.n)); break;
    case SET_PORT: if(! set_port(s)) return false; break;
    case SET_PORT_PART:
        if(s.empty()) { set_port(s); break; }
        if(s[0] != ':') return false;
        if(s.size() == 1) { need_auth(); r.has_port = true; r.port.clear(); }
        else if(! set_port(s.substr(1))) return false;
        break;
    case SET_PATH: if(! valid_path_chars(s)) return false; r.path = s; break;
    case SET_QUERY: r.has_query = ! s.empty(); r.query = encode(C_QUERY, s); break;
    case SET_ENC_QUERY: if(! valid_enc(C_QUERY, s)) return false; r.has_query = ! s.empty(); r.query = s; break;
    case SET_QUERY_PART:
        if(s.empty()) { r.has_query = false; r.query.clear(); break; }
        if(s[0] != '?' || ! valid_enc(C_QUERY, s.substr(1))) return false;
        r.has_query = true; r.query = s.substr(1);
        break;
    case SET_FRAG: r.has_frag = ! s.empty(); r.frag = encode(C_QUERY, s); break;
    case SET_ENC_FRAG: if(! valid_enc(C_QUERY, s)) return false; r.has_frag = ! s.empty(); r.frag = s; break;
    case SET_FRAG_PART:
        if(s.empty()) { r.has_frag = false; r.frag.clear(); break; }
        if(s[0] != '#' || ! valid_enc(C_QUERY, s.substr(1))) return false;
        r.has_frag = true; r.frag = s.substr(1);
        break;
    case NORMALIZE: case NORMALIZE_SCHEME:
        for(auto& c : r.scheme) if(c >= 'A' && c <= 'Z') c = char(c + 32);
        break;
    case SEG_INSERT: case SEG_INSERT_ENC:
    {
        if(op.k == SEG_INSERT_ENC && ! valid_enc(C_PCHAR, s)) return false;
        auto v = r.segments();
        bool abs = v.empty() || r.absolute();
        v.insert(v.begin() + op.i, op.k == SEG_INSERT ? encode(C_PCHAR, s) : s);
        if(! edit(v, abs)) return false;
        break;
    }
    case SEG_REPLACE: case SEG_REPLACE_ENC:
    {
        if(op.k == SEG_REPLACE_ENC && ! valid_enc(C_PCHAR, s)) return false;
        auto v = r.segments();
        v[op.i] = op.k == SEG_REPLACE ? encode(C_PCHAR, s) : s;
        if(! edit(v, r.absolute())) return false;
        break;
    }
    case SEG_ERASE: case SEG_ERASE_RANGE:
    {
        auto v = r.segments();
        v.erase(v.begin() + op.i, v.begin() + (op.k == SEG_ERASE ? op.i + 1 : op.j));
        if(! edit(v, r.absolute())) return false;   // see known findings
        break;
    }
    default: break;
    }
    if(! path_ok(r.path, r.has_scheme, r.has_auth)) return false;
    p = r;
    return true;
}

} // ref

#endif
