// Enumerated families of strings shared by the parsing properties.
#ifndef VERIF_STRINGS_HPP
#define VERIF_STRINGS_HPP
#include "check.hpp"

namespace fam {

using chk::nth_string;
using chk::count_strings;

static string const kAlpha("a1:/?#@[]%.g ", 13);
static string const kLit("0f:.v1g", 7);

inline string short_any(uint64_t i) { return nth_string(i, kAlpha); }
inline string short_auth(uint64_t i) { return "//" + nth_string(i, kAlpha); }
inline string short_scheme(uint64_t i) { return "s:" + nth_string(i, kAlpha); }
inline string short_lit(uint64_t i) { return "//[" + nth_string(i, kLit) + "]"; }

static uint64_t const n_any = count_strings(13, 5), n_auth = count_strings(13, 5), n_lit = count_strings(7, 6);
inline string long_any(uint64_t i) { return nth_string(n_any + i, kAlpha); }
inline string long_auth(uint64_t i) { return "//" + nth_string(n_any + i, kAlpha); }
inline string long_lit(uint64_t i) { return "//[" + nth_string(n_lit + i, kLit) + "]"; }
static uint64_t const n_any_l = count_strings(13, 6) - n_any, n_lit_l = count_strings(7, 8) - n_lit;

// every byte in every position of interest
static char const* const kBytePos[][2] = {
    {"", ""}, {"", ":"}, {"a", ":"}, {"a", "b:"}, {"", "/"}, {"a", ""}, {"/", ""}, {"/a", ""}, {"/a", "b"}, {"a/", ""}, {"a/b", "c/"},
    {"s:", ""}, {"s:a", "b"}, {"s:/", "x"}, {"//", ""}, {"//a", ""}, {"//a", "b"}, {"//", "@h"}, {"//u", "v@h"}, {"//u:", "@h"}, {"//u:p", "q@h"},
    {"//u:p@", "x"}, {"//h:", ""}, {"//h:1", ""}, {"//h:1", "2"}, {"//h:1", "/"}, {"//h/", ""}, {"//h", "/a"}, {"//[::", "]"}, {"//[::1]", ""},
    {"//[::1]", ":1"}, {"//[v", ".a]"}, {"//[v1", "a]"}, {"//[v1.", "]"}, {"//[v1.a", "b]"}, {"//[", ":1]"}, {"//[::1.2.3.", "]"}, {"//1.2.3.", ""}, {"//1.2.3.4", ""},
    {"?", ""}, {"?a", "b"}, {"?a=", "&b"}, {"#", ""}, {"#a", "b"}, {"?a#", "b"}, {"%", "1"}, {"/%1", ""}, {"?%", "F"}, {"//%", "a"}, {"//%4", ":1"}, {"//u%", "1@h"},
    {"#%f", ""}, {"a", ":b/c"}, {"a/b", ":c"}, {"s://h/p?q#", ""}, {"s://u@h", ":1/p"}, {"S", "0:"} };
static uint64_t const n_byte = 256 * (sizeof(kBytePos) / sizeof(kBytePos[0]));
inline string byte_pos(uint64_t i) { auto& t = kBytePos[i / 256]; return string(t[0]) + char(i % 256) + t[1]; }

// every pair of bytes behind a percent sign, in every component
static char const* const kPct[][2] = { {"//", ""}, {"//", "@h"}, {"//a:", "@h"}, {"", ""}, {"/", "x"}, {"?", ""}, {"#", ""}, {"s:", "/b"} };
static uint64_t const n_pct = 65536 * 8;
inline string pct(uint64_t i) { auto& t = kPct[i >> 16]; return string(t[0]) + "%" + char((i >> 8) & 255) + char(i & 255) + t[1]; }
// ... and cut short
static uint64_t const n_pct1 = 257 * 8;
inline string pct1(uint64_t i) { auto& t = kPct[i / 257]; uint64_t b = i % 257; string s = string(t[0]) + "%"; if(b < 256) s += char(b); return s; }

// IPv6 by structure: groups left, "::" or not, groups right, tail, and one group of another width
inline string v6(uint64_t i)
{
    unsigned a = i % 10; i /= 10;
    unsigned dbl = i % 3; i /= 3;       // 0 none, 1 "::", 2 ":::"
    unsigned b = i % 10; i /= 10;
    unsigned tail = i % 7; i /= 7;
    unsigned width = i % 6; i /= 6;     // width of the odd group
    unsigned where = i % 20;            // which group is odd
    static char const* const t[] = {"", "1.2.3.4", "255.255.255.255", "256.1.1.1", "1.2.3", "01.2.3.4", "1.2.3.4.5"};
    string s; unsigned k = 0;
    auto group = [&]{ string g = k == where ? string("00fA9").substr(0, width) : string("1"); ++k; return g; };
    for(unsigned j = 0; j < a; ++j) { if(j) s += ':'; s += group(); }
    if(dbl) s += dbl == 1 ? "::" : ":::";
    else if(a && (b || tail)) s += ':';
    for(unsigned j = 0; j < b; ++j) { if(j) s += ':'; s += group(); }
    if(tail) { if(b) s += ':'; s += t[tail]; }
    return s;
}
static uint64_t const n_v6 = 10 * 3 * 10 * 7 * 6 * 20;
inline string v6_url(uint64_t i) { return "//[" + v6(i) + "]"; }

// decimal octets 0..1099 in every position, with leading zeros
inline string octets(uint64_t i, bool& tail)
{
    unsigned v = i % 1100; i /= 1100;
    unsigned pos = i % 4; i /= 4;
    unsigned pad = i % 3; i /= 3;
    tail = i % 2;
    string n = string(pad, '0') + std::to_string(v), s;
    for(unsigned k = 0; k < 4; ++k) { if(k) s += '.'; s += k == pos ? n : string("7"); }
    return s;
}
static uint64_t const n_oct = 1100 * 4 * 3 * 2;
inline string oct_url(uint64_t i) { bool t; string s = octets(i, t); return t ? "//[::" + s + "]" : "//" + s; }

// four arbitrary octets around the boundaries
inline string oct4(uint64_t i)
{
    static char const* const v[] = {"0", "1", "9", "10", "99", "100", "199", "249", "255", "256", "260", "300", "00", "01", "", "a", "1000"};
    string s;
    for(int k = 0; k < 4; ++k) { if(k) s += '.'; s += v[i % 17]; i /= 17; }
    return s;
}
static uint64_t const n_oct4 = 17 * 17 * 17 * 17;
inline string oct4_url(uint64_t i) { return "//" + oct4(i); }

} // fam
#endif
