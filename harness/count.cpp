// Counters for C24. Compiled on its own, without coverage instrumentation and with -fno-builtin.
#include <new>

extern "C" {

unsigned long long g_work;      // branches taken and 8-byte units handled by the functions below
unsigned long g_news;           // blocks requested

using size = decltype(sizeof 0);

void __sanitizer_cov_trace_pc() { ++g_work; }

void* memcpy(void* d, void const* s, size n)
{
    g_work += 1 + n / 8;
    char volatile* a = static_cast<char*>(d); char const* b = static_cast<char const*>(s);
    for(size i = 0; i < n; ++i) a[i] = b[i];
    return d;
}

void* memmove(void* d, void const* s, size n)
{
    g_work += 1 + n / 8;
    char volatile* a = static_cast<char*>(d); char const* b = static_cast<char const*>(s);
    if(a < b) for(size i = 0; i < n; ++i) a[i] = b[i];
    else for(size i = n; i-- > 0;) a[i] = b[i];
    return d;
}

void* memset(void* d, int c, size n)
{
    g_work += 1 + n / 8;
    char volatile* a = static_cast<char*>(d);
    for(size i = 0; i < n; ++i) a[i] = char(c);
    return d;
}

int memcmp(void const* x, void const* y, size n)
{
    unsigned char const volatile* a = static_cast<unsigned char const*>(x);
    unsigned char const volatile* b = static_cast<unsigned char const*>(y);
    size i = 0; int r = 0;
    for(; i < n; ++i)
    {
        unsigned char p = a[i], q = b[i];
        if(p != q) { r = p < q ? -1 : 1; break; }
    }
    g_work += 1 + i / 8;
    return r;
}

void* memchr(void const* x, int c, size n)
{
    unsigned char const volatile* a = static_cast<unsigned char const*>(x);
    size i = 0;
    while(i < n && a[i] != static_cast<unsigned char>(c)) ++i;
    g_work += 1 + i / 8;
    return i < n ? const_cast<unsigned char*>(const_cast<unsigned char const*>(a) + i) : nullptr;
}

size strlen(char const* s)
{
    char const volatile* p = s;
    size i = 0; while(p[i]) ++i;
    g_work += 1 + i / 8;
    return i;
}

void* __libc_malloc(size);
void free(void*);
void* malloc(size n) { ++g_news; return __libc_malloc(n); }

} // extern "C"

void* operator new(size n) { ++g_news; void* p = __libc_malloc(n ? n : 1); if(! p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size) noexcept { free(p); }
