// C18: static_pool hands out aligned, disjoint, in-bounds blocks
#include "check.hpp"
using namespace ref;

struct alignas(32) A32 { char c[32]; };
struct alignas(64) A64 { char c[192]; };
struct S3 { char c[3]; };
struct S24 { double d; char c[16]; };
struct S12 { int a, b, c; };

struct Block { char* p; size_t n; void (*give)(urls::basic_static_pool::allocator_type<char>, char*, size_t); size_t count; bool live; };

struct Model
{
    char* base; size_t cap;
    std::vector<Block> blocks;
    size_t top = 0;                     // end of the blocks handed out
};

template<class T>
static void give(urls::basic_static_pool::allocator_type<char> a, char* p, size_t n)
{
    urls::basic_static_pool::allocator_type<T>(a).deallocate(reinterpret_cast<T*>(p), n);
}

template<class T, class A>
static bool take(Model& m, A a, size_t n, Ctx& c, string const& what)
{
    T* p = nullptr; bool threw = false;
    try { p = a.allocate(n); } catch(std::bad_alloc const&) { threw = true; }
    size_t const max = size_t(-1) / sizeof(T);
    uintptr_t const at = reinterpret_cast<uintptr_t>(m.base) + m.top;
    uintptr_t const up = (at + alignof(T) - 1) / alignof(T) * alignof(T);
    size_t const off = up - reinterpret_cast<uintptr_t>(m.base);
    bool const fits = n <= max && off <= m.cap && n * sizeof(T) <= m.cap - off;
    if(threw)
    {
        if(fits) fail(what + ": refused although it fits behind the " + std::to_string(m.top) + " bytes used of " + std::to_string(m.cap));
        LABEL(c, "refused");
        return false;
    }
    if(n > max) fail(what + ": succeeds although the size overflows");
    size_t const bytes = n * sizeof(T);
    char* q = reinterpret_cast<char*>(p);
    if(reinterpret_cast<uintptr_t>(q) % alignof(T)) fail(what + ": the block is not aligned to " + std::to_string(alignof(T)));
    if(q < m.base || q > m.base + m.cap || bytes > size_t(m.base + m.cap - q))
        fail(what + ": the block [" + std::to_string(q - m.base) + ", +" + std::to_string(bytes) + ") is outside the buffer of " + std::to_string(m.cap));
    for(auto& b : m.blocks)
        if(b.live && bytes && b.n && q < b.p + b.n && b.p < q + bytes)
            fail(what + ": the block [" + std::to_string(q - m.base) + ", +" + std::to_string(bytes) + ") overlaps [" + std::to_string(b.p - m.base) + ", +" + std::to_string(b.n) + ")");
    m.blocks.push_back({q, bytes, &give<T>, n, true});
    if(size_t(q - m.base) + bytes > m.top) m.top = size_t(q - m.base) + bytes;
    if(bytes) std::memset(q, int(m.blocks.size()), bytes);
    LABEL(c, "granted");
    if(up != at) LABEL(c, "needed padding");
    return true;
}

template<class A>
static bool take_kind(unsigned k, Model& m, A a, size_t n, Ctx& c)
{
    static char const* const nm[] = {"char", "short", "int", "double", "long double", "3-byte struct", "24-byte struct", "12-byte struct", "32-aligned", "64-aligned", "pointer"};
    string const what = "allocate<" + string(nm[k]) + ">(" + std::to_string(n) + ")";
    TRACE(c, what);
    c.add(k); c.add(n);
    using P = urls::basic_static_pool;
    switch(k)
    {
    case 0: return take<char>(m, P::allocator_type<char>(a), n, c, what);
    case 1: return take<short>(m, P::allocator_type<short>(a), n, c, what);
    case 2: return take<int>(m, P::allocator_type<int>(a), n, c, what);
    case 3: return take<double>(m, P::allocator_type<double>(a), n, c, what);
    case 4: return take<long double>(m, P::allocator_type<long double>(a), n, c, what);
    case 5: return take<S3>(m, P::allocator_type<S3>(a), n, c, what);
    case 6: return take<S24>(m, P::allocator_type<S24>(a), n, c, what);
    case 7: return take<S12>(m, P::allocator_type<S12>(a), n, c, what);
    case 8: return take<A32>(m, P::allocator_type<A32>(a), n, c, what);
    case 9: return take<A64>(m, P::allocator_type<A64>(a), n, c, what);
    default: return take<void*>(m, P::allocator_type<void*>(a), n, c, what);
    }
}
static unsigned const kSize[] = {1, 2, 4, 8, sizeof(long double), 3, sizeof(S24), 12, 32, 192, 8};

static size_t request(Src& r, Model const& m, unsigned k)
{
    size_t const left = (m.cap - m.top) / kSize[k];
    switch(r.draw(10))
    {
    default: return r.draw(5);
    case 4: if(m.cap > 30000) return left / (1 + r.draw(6)) + r.draw(3); return r.draw(20);
    case 5: return left - (left ? r.draw(2) : 0);
    case 6: return left + 1 + r.draw(2);
    case 7: return size_t(-1) - r.draw(3);
    case 8: return size_t(-1) / kSize[k] - r.draw(2) + r.draw(2);
    case 9: return (size_t(1) << (r.draw(64))) / (r.draw(2) ? 1 : kSize[k]) + r.draw(2);
    }
}

template<class Pool>
static void history(Src& r, Ctx& c, Pool& pool, Model& m)
{
    using A = urls::basic_static_pool::allocator_type<char>;
    A a = pool.allocator();
    size_t n = 1 + r.draw(16), granted = 0, refused = 0;
    for(size_t i = 0; i < n; ++i)
    {
        unsigned k = r.draw(11);
        bool ok;
        switch(r.draw(4))
        {
        case 0: ok = take_kind(k, m, pool.allocator(), request(r, m, k), c); break;
        case 1: { A b(a); ok = take_kind(k, m, b, request(r, m, k), c); break; }
        case 2: { urls::basic_static_pool::allocator_type<S24> s(a); A b(s); ok = take_kind(k, m, b, request(r, m, k), c); break; }
        default: ok = take_kind(k, m, a, request(r, m, k), c);
        }
        granted += ok; refused += ! ok;
        if(! m.blocks.empty() && r.draw(4) == 3)
        {
            size_t const j = r.draw(uint32_t(m.blocks.size()));
            auto& b = m.blocks[j];
            if(b.live) { TRACE(c, "deallocate block " << j); b.give(a, b.p, b.count); b.live = false; c.add(j); LABEL(c, "deallocates"); }
        }
    }
    // the contents written into the blocks are still there
    for(size_t i = 0; i < m.blocks.size(); ++i)
        for(size_t k = 0; m.blocks[i].live && k < m.blocks[i].n; ++k)
            if(m.blocks[i].p[k] != char(i + 1)) fail("the contents of block " + std::to_string(i) + " changed");
    if(granted && refused) c.nontrivial();
    if(granted >= 3) c.nontrivial();
}

static void pool_of(Src& r, Ctx& c, size_t cap);
static void r_large(Src& r, Ctx& c)
{
    pool_of(r, c, r.draw(2) ? 65536 * (1 + r.draw(3)) + r.draw(80) - 40 : 32768 + r.draw(200000));
}
static void r_pool(Src& r, Ctx& c)
{
    size_t cap;
    switch(r.draw(6)) { case 0: cap = r.draw(4); break; case 1: cap = r.draw(17); break; case 2: cap = 16u << r.draw(4); break; default: cap = r.draw(700); }
    pool_of(r, c, cap);
}
static void pool_of(Src& r, Ctx& c, size_t cap)
{
    size_t shift = r.draw(65);
    // guard bytes around the buffer
    size_t const G = 128;
    std::vector<char> mem(64 + shift + cap + 2 * G, char(0xa5));
    char* base = mem.data() + 64 - reinterpret_cast<uintptr_t>(mem.data()) % 64 + shift + G / 2;
    TRACE(c, "basic_static_pool of " << cap << " bytes, " << (reinterpret_cast<uintptr_t>(base) % 64) << " past a multiple of 64");
    c.add(cap); c.add(shift);
    urls::basic_static_pool pool(base, cap);
    Model m; m.base = base; m.cap = cap;
    history(r, c, pool, m);
    for(char* p = mem.data(); p < mem.data() + mem.size(); ++p)
        if((p < base || p >= base + cap) && *p != char(0xa5)) fail("bytes outside the buffer changed");
}

template<size_t N>
static void fixed(Src& r, Ctx& c)
{
    urls::static_pool<N> pool;
    TRACE(c, "static_pool<" << N << ">"); c.add(N);
    // find the buffer through a zero-size request, which always fits
    auto a = pool.allocator();
    char* base = a.allocate(0);
    if(base < reinterpret_cast<char*>(&pool) || base + N > reinterpret_cast<char*>(&pool + 1)) fail("the buffer of a static_pool is not inside it");
    Model m; m.base = base; m.cap = N;
    history(r, c, pool, m);
}
static void r_fixed(Src& r, Ctx& c)
{
    switch(r.draw(6)) { case 0: fixed<1>(r, c); break; case 1: fixed<7>(r, c); break; case 2: fixed<16>(r, c); break; case 3: fixed<64>(r, c); break; case 4: fixed<100>(r, c); break; default: fixed<4096>(r, c); }
}

// two pools: allocators compare equal exactly when they use the same pool, whatever the type
static void r_equal(Src& r, Ctx& c)
{
    char buf[256];
    // apart, over the same bytes, overlapping: a pool is
    // the object, not its bytes
    static struct { unsigned at, size; } const place[] = {{0, 128}, {128, 128}, {0, 128}, {0, 256}, {64, 128}, {0, 64}, {128, 64}};
    urls::basic_static_pool p[] = {{buf, 128}, {buf + 128, 128}, {buf, 128}, {buf, 256}, {buf + 64, 128}, {buf, 64}, {buf + 128, 64}};
    using P = urls::basic_static_pool;
    unsigned i = r.draw(7), j = r.draw(7);
    TRACE(c, "allocators of pools " << i << " and " << j);
    P::allocator_type<char> a = p[i].allocator(), b = p[j].allocator();
    P::allocator_type<int> ai(a), bi(b); P::allocator_type<A64> ax(ai), bx(bi);
    P::allocator_type<char> back(ax);
    std::allocator_traits<P::allocator_type<char>>::rebind_alloc<double> ad(a), bd(b);
    bool const eq = i == j;
    if((a == b) != eq || (a != b) == eq || (ai == b) != eq || (a != bi) == eq || (ax == bx) != eq || (bx == ai) != eq || (ad == b) != eq || (ad != bd) == eq || (bd == ax) != eq)
        fail("allocator comparison is wrong for " + string(eq ? "the same pool" : "two pools"));
    if(back != a || ! (back == a)) fail("an allocator rebound there and back differs");
    // assignment changes which pool is used
    P::allocator_type<char> x(a); x = b;
    if((x == b) != true || (x == a) != eq) fail("an assigned allocator uses another pool");
    char* q = x.allocate(5); if(q < buf + place[j].at || q + 5 > buf + place[j].at + place[j].size) fail("an assigned allocator allocates from another pool");
    c.nontrivial(); c.add(i * 8 + j + 7);
}

// urls and strings living in a pool behave as elsewhere until it is full
static void r_url(Src& r, Ctx& c)
{
    using A = urls::basic_static_pool::allocator_type<char>;
    size_t cap = r.draw(4) ? r.draw(300) : r.draw(4000);
    std::vector<char> mem(cap + 64, char(0xa5));
    urls::basic_static_pool pool(mem.data() + 32, cap);
    {
        urls::basic_url<A> u(pool.allocator());
        Parts p;
        size_t n = 1 + r.draw(6), ok_ = 0, full = 0;
        TRACE(c, "basic_url in a pool of " << cap);
        c.add(cap);
        for(size_t i = 0; i < n; ++i)
        {
            Op o = gen::op(r, p);
            if(i == 0 && r.draw(2)) { o = Op(); o.k = SET_URL; o.s = gen::parts(r).text(); }
            TRACE(c, gen::show(o)); c.add(o.s); c.add(o.k);
            Parts q = p;
            bool good = ref::apply(q, o);
            auto out = lib::try_call(u, o);
            if(out == lib::O_OTHER) return;
            if(out == lib::O_OK && good) { p = q; ++ok_; }
            if(out == lib::O_BAD_ALLOC) { ++full; LABEL(c, "pool full"); }
            if((out == lib::O_OK) && ! good) return;            // C08
            chk::expect_parts(static_cast<urls::basic_url<A> const&>(u), p, lib::M_ALL, "in a pool, after " + gen::show(o));
            if(u.size() && (u.data() < mem.data() + 32 || u.data() + u.size() >= mem.data() + 32 + cap)) fail("the text of a url in a pool lies outside the pool");
            if(u.capacity() >= (cap ? cap : 1)) fail("capacity() of a url in a pool of " + std::to_string(cap) + " bytes is " + std::to_string(u.capacity()));
        }
        // decoded strings from the same pool
        try
        {
            auto s = u.query(pool.allocator());
            if(string(s.data(), s.size()) != decode(p.query)) fail("query() in the pool differs");
            auto f = u.fragment(pool.allocator());
            if(string(f.data(), f.size()) != decode(p.frag)) fail("fragment() in the pool differs");
            chk::expect_parts(static_cast<urls::basic_url<A> const&>(u), p, lib::M_ALL, "after decoding into the same pool");
        }
        catch(std::bad_alloc const&) { LABEL(c, "pool full while decoding"); }
        if(ok_ && (full || ok_ > 1)) c.nontrivial();
    }
    for(size_t i = 0; i < mem.size(); ++i)
        if((i < 32 || i >= 32 + cap) && mem[i] != char(0xa5)) fail("bytes outside the pool's buffer changed");
}

// every capacity, alignment of the buffer, and pair of small requests
static void e_small(uint64_t i, Ctx& c)
{
    size_t cap = i % 34; i /= 34;
    size_t shift = i % 16; i /= 16;
    unsigned k[3]; size_t n[3];
    for(int j = 0; j < 2; ++j) { static unsigned const ks[] = {0, 1, 2, 3, 5}; k[j] = ks[i % 5]; i /= 5; n[j] = i % 5; i /= 5; }
    alignas(64) char mem[256];
    std::memset(mem, 0x5a, sizeof mem);
    urls::basic_static_pool pool(mem + 64 + shift, cap);
    Model m; m.base = mem + 64 + shift; m.cap = cap;
    TRACE(c, "pool of " << cap << " at offset " << shift);
    bool a = take_kind(k[0], m, pool.allocator(), n[0], c), b = take_kind(k[1], m, pool.allocator(), n[1], c);
    bool d = take_kind(0, m, pool.allocator(), m.cap - m.top, c);       // the rest
    take_kind(0, m, pool.allocator(), 1, c);                            // nothing left
    for(size_t j = 0; j < sizeof mem; ++j)
        if((j < 64 + shift || j >= 64 + shift + cap) && mem[j] != 0x5a) fail("bytes outside the buffer changed");
    if(a && b && d) c.nontrivial();
}

eng::Check const& eng::get_check()
{
    static Check const k{"C18",
        "Random sequences of up to 16 requests for 11 element types (1 to 64-byte alignment, sizes 1 to 192) with counts from 0 through 'exactly the rest', 'one too many', powers of two and overflowing products, "
        "through fresh, copied and rebound allocators, on basic_static_pool over buffers of 0 to 700 and of 32768 to 232768 bytes at every alignment and on static_pool of six sizes, with deallocations in between; all capacities up to 33 "
        "at 16 offsets with all pairs of small requests; comparisons between two pools; urls and decoded strings living in a pool. A model keeps the handed-out blocks: each new one must be aligned, inside, disjoint "
        "from all those in use, granted when it fits behind all that were handed out and otherwise refused with bad_alloc; guard bytes and block contents must survive. Non-trivial: three grants, or a grant and a refusal; distinct by the requests.",
        {{"pools", r_pool, 400000, 15000000}, {"large pools", r_large, 1200, 40000}, {"fixed pools", r_fixed, 150000, 5000000}, {"comparisons", r_equal, 200, 2000}, {"urls in a pool", r_url, 150000, 5000000}},
        {{"small", e_small, 34 * 16 * 625, 0}}};
    return k;
}
