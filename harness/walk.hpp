// Walks over the lists segments() and params() against the expected elements.
#ifndef VERIF_WALK_HPP
#define VERIF_WALK_HPP
#include "check.hpp"
#include <algorithm>
#include <iterator>

namespace walk {

using Seg = string;                         // encoded
using Param = std::pair<string, string>;    // encoded

template<class V> string elem(V const& v, Seg const*) { return S(v.encoded_string()) + " -> " + v.string(); }
template<class V> string elem(V const& v, Param const*)
{
    std::pair<string const, string> d = v;
    if(d.first != v.key() || d.second != v.value()) return "(pair conversion differs)";
    return S(v.encoded_key()) + "=" + S(v.encoded_value()) + " -> " + v.key() + "=" + v.value();
}
inline string elem(Seg const& v) { return v + " -> " + ref::decode(v); }
inline string elem(Param const& v) { return v.first + "=" + v.second + " -> " + ref::decode(v.first) + "=" + ref::decode(v.second); }

template<class It, class T>
void at(It const& it, std::vector<T> const& want, size_t i, string const& what)
{
    if(i >= want.size()) return;
    string g = elem(*it, &want[0]), w = elem(want[i]);
    if(g != w) fail(what + ": element " + std::to_string(i) + " is " + quote(g) + ", expected " + quote(w));
    string h = elem(*it.operator->().operator->(), &want[0]);
    if(h != w) fail(what + ": element " + std::to_string(i) + " through -> is " + quote(h) + ", expected " + quote(w));
}

template<class It, class = void> struct has_traits { static constexpr bool value = false; };
template<class It> struct has_traits<It, decltype(void(sizeof(typename std::iterator_traits<It>::iterator_category)))> { static constexpr bool value = true; };

// Through the standard algorithms and adaptors, where the iterator claims to be one
template<class L, class T>
void algorithms(L const& l, std::vector<T> const& want, string const& what)
{
    using It = decltype(l.begin());
    if constexpr(has_traits<It>::value)
    {
        size_t const n = want.size();
        auto const b = l.begin(), e = l.end();
        if(size_t(std::distance(b, e)) != n) fail(what + ": std::distance is not " + std::to_string(n));
        std::reverse_iterator<It> r(e), re(b);
        size_t i = n;
        for(; r != re; ++r)
        {
            if(i == 0) fail(what + ": a reverse iterator does not end");
            --i;
            auto&& x = *r;
            string const g = elem(x, &want[0]), w = elem(want[i]);
            if(g != w) fail(what + ": element " + std::to_string(i) + " is " + quote(g) + " through a reverse iterator, expected " + quote(w));
        }
        if(i) fail(what + ": a reverse iterator ends early");
        std::vector<string> got, exp;
        using V = typename std::iterator_traits<It>::value_type;
        std::transform(b, e, std::back_inserter(got), [&](V const& x) { return elem(x, &want[0]); });
        for(auto& x : want) exp.push_back(elem(x));
        if(got != exp) fail(what + ": std::transform sees other elements");
        if(n)
        {
            string const key = exp[n / 2];
            size_t const k = size_t(std::find(exp.begin(), exp.end(), key) - exp.begin());
            auto const f = std::find_if(b, e, [&](V const& x) { return elem(x, &want[0]) == key; });
            if(size_t(std::distance(b, f)) != k || f != std::next(b, long(k)) || f != std::prev(e, long(n - k)))
                fail(what + ": std::find_if, next, prev and distance disagree about element " + std::to_string(k));
        }
    }
}

// sizes, forward, backward (pre and post forms)
template<class L, class T>
void all(L const& l, std::vector<T> const& want, string const& what)
{
    size_t const n = want.size();
    if(l.size() != n) fail(what + ": size() is " + std::to_string(l.size()) + ", expected " + std::to_string(n));
    if(l.empty() != (n == 0)) fail(what + ": empty() is wrong for " + std::to_string(n) + " elements");
    auto const e = l.end();
    {
        using It = decltype(l.begin());
        It d, x, y(l.begin());
        if(! (d == x) || d != x) fail(what + ": default-constructed iterators differ");
        x = y; d = l.end();
        if(x != y || ! (x == l.begin()) || d != e || (x == d) != (n == 0)) fail(what + ": a copied or assigned iterator differs from its source");
    }
    if((l.begin() == e) != (n == 0)) fail(what + ": begin() == end() is wrong for " + std::to_string(n) + " elements");
    {
        auto it = l.begin();
        for(size_t i = 0; i < n; ++i)
        {
            if(it == e || ! (it != e)) fail(what + ": forward iteration ends after " + std::to_string(i) + " of " + std::to_string(n));
            at(it, want, i, what + ", forward");
            auto& r = ++it;
            if(&r != &it) fail(what + ": ++ returns another object");
        }
        if(it != e) fail(what + ": forward iteration does not end after " + std::to_string(n));
    }
    {
        auto it = l.begin();
        for(size_t i = 0; i < n; ++i) at(it++, want, i, what + ", it++");
        if(! (it == e)) fail(what + ": it++ does not reach end()");
    }
    {
        auto it = e;
        for(size_t i = n; i-- > 0;)
        {
            auto& r = --it;
            if(&r != &it) fail(what + ": -- returns another object");
            at(it, want, i, what + ", backward");
            if((it == l.begin()) != (i == 0)) fail(what + ": backward iteration: comparison with begin() wrong at element " + std::to_string(i));
        }
    }
    if(n)
    {
        auto it = e; --it;
        for(size_t i = n - 1; i > 0; --i) at(it--, want, i, what + ", it--");
        at(it, want, 0, what + ", it-- at begin");
        if(it != l.begin()) fail(what + ": it-- does not reach begin()");
    }
    algorithms(l, want, what);
}

// a mixture of ++ and --, with all earlier positions remembered
template<class L, class T>
void mixed(L const& l, std::vector<T> const& want, Src& r, size_t steps, string const& what)
{
    size_t const n = want.size();
    if(n == 0 || l.size() != n) return;
    using It = decltype(l.begin());
    std::vector<It> seen; std::vector<bool> have(n + 1, false);
    It const e = l.end();
    for(size_t i = 0; i <= n; ++i) seen.push_back(e);
    size_t i = 0;
    It it = l.begin();
    if(r.draw(2)) { it = e; i = n; }
    for(size_t k = 0; k < steps; ++k)
    {
        bool fwd = i == 0 || (i < n && r.draw(2) == 0);
        bool post = r.draw(2);
        if(fwd) { if(post) { It o = it++; at(o, want, i, what + ", mixed walk"); } else ++it; ++i; }
        else { if(post) { It o = it--; at(o, want, i, what + ", mixed walk"); } else --it; --i; }
        at(it, want, i, what + ", mixed walk");
        if((it == e) != (i == n)) fail(what + ", mixed walk: comparison with end() wrong at " + std::to_string(i) + " of " + std::to_string(n));
        if((it == l.begin()) != (i == 0)) fail(what + ", mixed walk: comparison with begin() wrong at " + std::to_string(i));
        if(have[i] && seen[i] != it) fail(what + ", mixed walk: two iterators at element " + std::to_string(i) + " differ");
        seen[i] = it; have[i] = true;
        size_t j = r.draw(uint32_t(n + 1));
        if(j != i && have[j] && seen[j] == it) fail(what + ", mixed walk: iterators at elements " + std::to_string(i) + " and " + std::to_string(j) + " are equal");
    }
}

} // walk
#endif
