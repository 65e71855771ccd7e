#include "arena.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <sys/mman.h>
#include <unistd.h>
#include <deque>
#include <vector>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SIM_ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define SIM_ASAN 1
#endif
#ifdef SIM_ASAN
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region(p, n)
#define UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#define NOASAN __attribute__((no_sanitize("address"), noinline))
#else
#define POISON(p, n) ((void)0)
#define UNPOISON(p, n) ((void)0)
#define NOASAN __attribute__((noinline))
#endif

extern "C"
{
    void *__real_malloc(size_t);
    void *__real_calloc(size_t, size_t);
    void *__real_realloc(void *, size_t);
    void __real_free(void *);
    char *__real_strdup(const char *);
}

namespace
{
    // The simulator's own containers must not use the simulated heap.
    template <class T>
    struct Real
    {
        using value_type = T;
        Real() = default;
        template <class U>
        Real(const Real<U> &) {}
        T *allocate(size_t n) { return (T *)__real_malloc(n * sizeof(T)); }
        void deallocate(T *p, size_t) { __real_free(p); }
        template <class U>
        bool operator==(const Real<U> &) const { return true; }
        template <class U>
        bool operator!=(const Real<U> &) const { return false; }
    };
    constexpr size_t HEAD = 32, TAIL = 32;
    constexpr uint64_t LIVE = 0x51fe51fe0badcafeull, DEAD = 0xdeaddeaddeadbeefull;
    constexpr unsigned char CANARY = 0xc5;
    struct Head
    {
        uint64_t magic;
        uint32_t size;   // requested
        uint32_t kind;   // 1 operator new, 2 malloc
        uint64_t cls;    // usable size class
        uint64_t seq;
    };
    static_assert(sizeof(Head) == HEAD);

    ArenaConfig cfg;
    ArenaStats st;
    bool on = false;
    size_t atom_cls = 0;
    char *base = nullptr, *lo = nullptr, *hi = nullptr, *limit = nullptr;
    char *stride_base = nullptr;
    int stride_next = 0;
    char *force_base_ = nullptr;
    uint64_t rng = 1, seq = 0;
    long fail_n = -1, fail_m = -1;
    bool fail_sticky = false, fired = false;
    uint64_t n_new = 0;
    size_t force_cls = 0;
    uintptr_t force_addr = 0;
    char why[200];
    using Q = std::deque<char *, Real<char *>>;
    std::map<size_t, Q, std::less<size_t>, Real<std::pair<const size_t, Q>>> *freed, *fresh;
    std::vector<std::pair<uintptr_t, uintptr_t>, Real<std::pair<uintptr_t, uintptr_t>>> *forced_used;
    constexpr size_t MAIN = 768ull << 20, STRIDE = 1ull << 32, NSTRIDE = 48;

    uint64_t rnd()
    {
        rng += 0x9e3779b97f4a7c15ull;
        uint64_t z = rng;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    size_t cls_of(size_t n) { return n <= 16 ? 16 : (n + 15) & ~size_t(15); }
    char *reserve(uintptr_t at, size_t n)
    {
        void *p = mmap((void *)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (void *)at)
        {
            fprintf(stderr, "SIM: cannot reserve %zx bytes at %zx\n", n, (size_t)at);
            _exit(97);
        }
        return (char *)p;
    }
    char *bump(size_t cls)
    {
        size_t need = HEAD + cls + TAIL;
        char *p;
        if (cfg.dir == 1)
        {
            hi -= need;
            p = hi;
        }
        else
        {
            p = lo;
            lo += need;
        }
        if (lo >= hi)
        {
            fprintf(stderr, "SIM: simulated heap exhausted\n");
            _exit(96);
        }
        return p + HEAD;
    }
    NOASAN Head *head(void *p) { return (Head *)((char *)p - HEAD); }
    NOASAN void note(const char *what, void *p)
    {
        if (!why[0])
            snprintf(why, sizeof why, "%s (block %llu of %u bytes)", what, (unsigned long long)head(p)->seq, head(p)->size);
    }
    NOASAN void fill(char *p, size_t n)
    {
        switch (cfg.junk)
        {
        case 1: for (size_t i = 0; i < n; i++) p[i] = 0; break;
        case 2: for (size_t i = 0; i < n; i++) p[i] = (char)0xff; break;
        case 3: for (size_t i = 0; i < n; i++) p[i] = (char)0xaa; break;
        case 4: { uint64_t s = rnd(); for (size_t i = 0; i < n; i++) { s = s * 6364136223846793005ull + 1442695040888963407ull; p[i] = (char)(s >> 56); } break; }
        }
    }
    NOASAN void *take(size_t n, int kind)
    {
        size_t cls = cls_of(n);
        char *p = nullptr;
        bool re = false;
        if (force_addr && cls == force_cls)
        {
            p = (char *)force_addr;
            forced_used->push_back({force_addr - HEAD, force_addr + cls + TAIL});
            force_addr = 0;
            st.forced++;
        }
        if (!p && (cfg.reuse != 3 || hi - lo < (ptrdiff_t)(MAIN / 3))) // "never" ends when the space runs short
        {
            auto it = freed->find(cls);
            if (it != freed->end() && !it->second.empty())
            {
                auto &q = it->second;
                if (cfg.reuse == 0) { p = q.back(); q.pop_back(); }
                else if (cfg.reuse == 1 || cfg.reuse == 3) { if (q.size() > 3) { p = q.front(); q.pop_front(); } }
                else { size_t i = rnd() % q.size(); p = q[i]; q[i] = q.back(); q.pop_back(); }
                if (p) { re = true; st.reused++; }
            }
        }
        if (!p && cfg.stride && cls == atom_cls && stride_next < (int)NSTRIDE)
        {
            p = stride_base + STRIDE * (uint64_t)stride_next++ + HEAD;
            st.strided++;
        }
        if (!p && cfg.dir == 2)
        {
            auto &q = (*fresh)[cls];
            if (q.empty())
                for (int i = 0; i < (cls > 4096 ? 1 : 8); i++)
                    q.push_back(bump(cls));
            size_t i = rnd() % q.size();
            p = q[i]; q[i] = q.back(); q.pop_back();
        }
        if (!p)
            p = bump(cls);
        UNPOISON(p - HEAD, HEAD + cls + TAIL);
        Head *h = head(p);
        if (re && h->magic != DEAD)
            note("freed block was written to", p);
        *h = Head{LIVE, (uint32_t)n, (uint32_t)kind, cls, ++seq};
        if (cfg.junk) fill(p, cls);
        for (size_t i = n; i < cls + TAIL; i++) p[i] = (char)CANARY;
        POISON(p - HEAD, HEAD);
        POISON(p + n, cls - n + TAIL);
        st.allocs++; st.live_blocks++; st.live_bytes += n;
        return p;
    }
    NOASAN bool mine(void *p)
    {
        char *c = (char *)p;
        if (!on) return false;
        if (c >= base && c < limit) return true;
        return c >= stride_base && c < stride_base + STRIDE * NSTRIDE && (uint64_t)(c - stride_base) % STRIDE < 4096;
    }
    NOASAN void give(void *p, int kind)
    {
        Head *h = head(p);
        UNPOISON((char *)p - HEAD, HEAD);
        if (h->magic != LIVE)
        {
            note(h->magic == DEAD ? "block freed twice" : "freed a pointer that is no block", p);
            fprintf(stderr, "SIM-HEAP: %s\n", why);
            fflush(stderr);
            _exit(98);
        }
        if ((int)h->kind != kind) note("block freed by the wrong kind of deallocation", p);
        char *c = (char *)p;
        UNPOISON(c, h->cls + TAIL);
        for (size_t i = h->size; i < h->cls + TAIL; i++)
            if (c[i] != (char)CANARY) { note("write past the end of a block", p); break; }
        st.frees++; st.live_blocks--; st.live_bytes -= h->size;
        h->magic = DEAD;
        if (cfg.junk) { for (size_t i = 0; i < h->cls; i++) c[i] = (char)0xdd; }
        (*freed)[h->cls].push_back(c);
        POISON(c - HEAD, HEAD + h->cls + TAIL);
    }
}

int arena::scope = 0;

void arena::init(const ArenaConfig &c, size_t atom_size)
{
    cfg = c;
    rng = c.seed * 0x9e3779b97f4a7c15ull + 7;
    st = ArenaStats{};
    why[0] = 0;
    freed = new (__real_malloc(sizeof *freed)) std::remove_reference_t<decltype(*freed)>;
    fresh = new (__real_malloc(sizeof *fresh)) std::remove_reference_t<decltype(*fresh)>;
    forced_used = new (__real_malloc(sizeof *forced_used)) std::remove_reference_t<decltype(*forced_used)>;
    base = reserve(c.low ? 0x20000000ull : 0x200000000000ull, MAIN);
    lo = base; limit = base + MAIN;
    hi = limit - (256ull << 20);
    force_base_ = limit - (256ull << 20);
    // The strided blocks share their low 32 bits and stay apart from the main region.
    stride_base = (char *)0x210000000000ull;
    if (cfg.stride)
        for (uint64_t i = 0; i < NSTRIDE; i++)
            reserve((uintptr_t)stride_base + i * STRIDE, 4096);
    atom_cls = cls_of(atom_size);
    on = true;
}
bool arena::active() { return on; }
const ArenaStats &arena::stats() { return st; }
void arena::force_next(size_t size, uintptr_t a) { force_cls = cls_of(size); force_addr = a; }
uintptr_t arena::forced_base() { return (uintptr_t)force_base_ + 4096; }
bool arena::forced_ok(uintptr_t a)
{
    if (a % 16 || a < (uintptr_t)force_base_ + HEAD || a + atom_cls + TAIL >= (uintptr_t)limit) return false;
    for (auto &u : *forced_used)
        if (a - HEAD < u.second && u.first < a + atom_cls + TAIL) return false;
    return true;
}
void arena::fail_new(long after, bool sticky) { fail_n = after; fail_sticky = sticky; fired = false; }
void arena::fail_malloc(long after) { fail_m = after; fired = false; }
bool arena::fail_fired() { return fired; }
std::string arena::corruption() { return why; }
uint64_t arena::new_count() { return n_new; }

static void *sim_new(size_t n)
{
    if (on && arena::scope)
    {
        n_new++;
        if (fail_n == 0)
        {
            fired = true; st.failed_new++;
            if (!fail_sticky) fail_n = -1;
            throw std::bad_alloc();
        }
        if (fail_n > 0) fail_n--;
        if (n > (64ull << 20)) throw std::bad_alloc();
        arena::Out o;
        return take(n, 1);
    }
    void *p = __real_malloc(n ? n : 1);
    if (!p) abort();
    return p;
}
static void sim_delete(void *p)
{
    if (!p) return;
    if (mine(p)) { arena::Out o; give(p, 1); }
    else __real_free(p);
}
void *operator new(size_t n) { return sim_new(n); }
void *operator new[](size_t n) { return sim_new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return sim_new(n); } catch (...) { return nullptr; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return sim_new(n); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { sim_delete(p); }
void operator delete[](void *p) noexcept { sim_delete(p); }
void operator delete(void *p, size_t) noexcept { sim_delete(p); }
void operator delete[](void *p, size_t) noexcept { sim_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim_delete(p); }

static bool malloc_fails()
{
    if (fail_m == 0) { fired = true; st.failed_malloc++; fail_m = -1; return true; }
    if (fail_m > 0) fail_m--;
    return false;
}
extern "C"
{
    void *__wrap_malloc(size_t n)
    {
        if (on && arena::scope)
        {
            if (malloc_fails() || n > (64ull << 20)) return nullptr;
            arena::Out o;
            return take(n, 2);
        }
        return __real_malloc(n);
    }
    void *__wrap_calloc(size_t a, size_t b)
    {
        if (on && arena::scope)
        {
            if (malloc_fails() || a * b > (64ull << 20)) return nullptr;
            arena::Out o;
            void *p = take(a * b, 2);
            memset(p, 0, a * b);
            return p;
        }
        return __real_calloc(a, b);
    }
    void __wrap_free(void *p)
    {
        if (!p) return;
        if (mine(p)) { arena::Out o; give(p, 2); }
        else __real_free(p);
    }
    NOASAN static uint32_t size_of(void *p) { return head(p)->magic == LIVE ? head(p)->size : 0; }
    void *__wrap_realloc(void *p, size_t n)
    {
        if (p && !mine(p)) return __real_realloc(p, n);
        if (!(on && arena::scope) && !p) return __real_realloc(p, n);
        if (malloc_fails() || n > (64ull << 20)) return nullptr;
        arena::Out o;
        if (!p) return take(n, 2);
        uint32_t old = size_of(p);
        void *q = take(n, 2);
        memcpy(q, p, old < n ? old : n);
        give(p, 2);
        return q;
    }
    char *__wrap_strdup(const char *s)
    {
        size_t n = strlen(s) + 1;
        char *p = (char *)__wrap_malloc(n);
        if (p) memcpy(p, s, n);
        return p;
    }
}
