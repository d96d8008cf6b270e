// Heap of the simulated processes: fixed arena, red zones, accounting, injected failures; and the callbacks the compiler
// plants at every memory access of the system under test (-fsanitize=thread, without its runtime).
#include "internal.h"
#include <new>
#include <sys/mman.h>

namespace sim
{
static const u64 BASE = 0x200000000000ull, SIZE = 3ull << 30;
static const u64 SHADOW = 0x210000000000ull;
static u64 bump = 0;
static bool ready = false;
static const u64 RZ = 32;
struct Hdr { u64 magic, size, block; Proc *owner; };
static_assert (sizeof (Hdr) == 32, "");
static const u64 MAGIC = 0x51A0C0DE51A0C0DEull, FREED = 0xDEADF4EEDEADF4EEull;
static std::map<u64, std::vector<u64>> freelist; // big blocks, by size
static std::set<u64> *livset = nullptr;

static inline u8 *sh (u64 a) { return reinterpret_cast<u8 *> (SHADOW + ((a - BASE) >> 3)); }

void mem_init ()
{
    if (ready) return;
    void *a = mmap ((void *) BASE, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void *b = mmap ((void *) SHADOW, SIZE >> 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (a == MAP_FAILED || b == MAP_FAILED) { perror ("arena"); _exit (2); }
    livset = new std::set<u64>;
    ready = true;
}

static void memerr (const std::string &w)
{
    if (W && W->memerrs.size () < 20) W->memerrs.push_back (w);
    tr ("memory error: " + w);
}

static struct { bool on = false; i64 fail_at = -1; bool forever = false; int kind = 0; u64 count = 0, faults = 0; } armed; // around one operation
bool alloc_should_fail (size_t n, int kind)
{
    if (!tls.in_app || !tls.cur || !tls.cur->proc) return false;
    HostScope hs;
    Proc &p = *tls.cur->proc;
    if (p.spec.alloc_kind && p.spec.alloc_kind != kind) return false;
    const u64 k = p.allocs++;
    if (armed.on && (armed.kind == 0 || armed.kind == kind))
    {
        const u64 m = armed.count++;
        if (armed.fail_at >= 0 && (armed.forever ? m >= u64 (armed.fail_at) : m == u64 (armed.fail_at)))
        {
            ++armed.faults;
            ++p.alloc_faults;
            note (kind == 2 ? "fault.zlib_alloc" : "fault.alloc");
            tr (13, m, n);
            return true;
        }
    }
    if (p.spec.alloc_fail_at >= 0 && (p.spec.alloc_fail_forever ? k >= u64 (p.spec.alloc_fail_at) : k == u64 (p.spec.alloc_fail_at)))
    {
        ++p.alloc_faults;
        note (kind == 2 ? "fault.zlib_alloc" : "fault.alloc");
        tr (13, k, n);
        return true;
    }
    return false;
}

void *arena_alloc (size_t n, size_t align)
{
    if (alloc_should_fail (n, 1)) return nullptr;
    HostScope hs;
    Proc &p = *tls.cur->proc;
    if (n > p.spec.mem_limit || p.live + n > p.spec.mem_limit)
    {
        note ("fault.memory_limit");
        ++p.alloc_faults;
        tr (13, n, 1);
        return nullptr;
    }
    if (align < 16) align = 16;
    // [Hdr][red zone][user][red zone]
    const u64 front = (sizeof (Hdr) + RZ + align - 1) / align * align;
    u64 block = (front + n + RZ + 15) & ~15ull;
    u64 at;
    const bool big = block >= 65536;
    if (big)
    {
        block = (block + 65535) & ~65535ull;
        auto &fl = freelist[block];
        if (!fl.empty ()) { at = fl.back (); fl.pop_back (); }
        else { at = bump; bump += block; }
        const u64 user0 = BASE + at + front;
        if (user0 % align) { at += align - user0 % align; bump += align; }
    }
    else
    {
        const u64 mis = (BASE + bump + front) % align;
        if (mis) bump += align - mis;
        at = bump;
        bump += block;
    }
    if (bump + (1 << 20) > SIZE) { fprintf (stderr, "arena exhausted\n"); _exit (94); }
    const u64 user = BASE + at + front;
    Hdr *h = reinterpret_cast<Hdr *> (user - RZ - sizeof (Hdr));
    h->magic = MAGIC;
    h->size = n;
    h->block = big ? block : 0;
    h->owner = &p;
    memset ((void *) (user - RZ), 0xFB, RZ);
    memset ((void *) (user + n), 0xFB, RZ);
    memset ((void *) user, p.spec.heap_fill, std::min<size_t> (n, 65536));
    memset (sh (user), 8, n >> 3);
    if (n & 7) *sh (user + n) = n & 7;
    else if (*sh (user + n)) *sh (user + n) = 0;
    p.live += n;
    p.peak = std::max (p.peak, p.live);
    livset->insert (user);
    return (void *) user;
}
static bool zone_ok (const u8 *z) { for (u64 i = 0; i < RZ; ++i) if (z[i] != 0xFB) return false; return true; }
static void arena_free (void *vp)
{
    HostScope hs;
    const u64 user = (u64) vp;
    Hdr *h = reinterpret_cast<Hdr *> (user - RZ - sizeof (Hdr));
    if (h->magic != MAGIC) { memerr (h->magic == FREED ? "double free" : "free of a pointer that was not allocated"); return; }
    if (!zone_ok ((u8 *) user - RZ)) memerr ("write before the start of a heap block");
    if (!zone_ok ((u8 *) user + h->size)) memerr (fmt ("write past the end of a heap block of %llu bytes", (unsigned long long) h->size));
    h->magic = FREED;
    h->owner->live -= h->size;
    memset (sh (user), 0, (h->size + 7) >> 3);
    memset (vp, 0xDD, std::min<u64> (h->size, 4096));
    livset->erase (user);
    if (h->block) freelist[h->block].push_back (user - BASE - ((sizeof (Hdr) + RZ + 15) / 16 * 16));
}
void mem_check_all ()
{
    HostScope hs;
    if (!livset) return;
    for (u64 user : *livset)
    {
        Hdr *h = reinterpret_cast<Hdr *> (user - RZ - sizeof (Hdr));
        if (h->magic != MAGIC || !zone_ok ((u8 *) user - RZ) || !zone_ok ((u8 *) user + h->size))
        { memerr ("heap block overrun"); break; }
    }
}
static inline bool in_arena (const void *p) { return (u64) p - BASE < SIZE; }

static void *app_new (size_t n, size_t align, bool nothrow)
{
    if (tls.in_app && tls.cur && tls.cur->proc)
    {
        void *p = arena_alloc (n, align);
        if (p || nothrow) return p;
        throw std::bad_alloc ();
    }
    void *p = align > 16 ? aligned_alloc (align, (n + align - 1) / align * align) : malloc (n ? n : 1);
    if (!p && !nothrow) throw std::bad_alloc ();
    return p;
}
static void app_delete (void *p)
{
    if (!p) return;
    if (in_arena (p)) arena_free (p);
    else free (p);
}

// ---------------------------------------------------------------- accesses
static void step_limit ()
{
    HostScope hs;
    budget_exceeded ("steps");
}
static void __attribute__ ((noinline)) bad_access (const void *a, size_t n, bool wr)
{
    HostScope hs;
    const u64 u = (u64) a;
    auto i = livset->upper_bound (u);
    std::string where = "outside any live heap block";
    if (i != livset->begin ())
    {
        --i;
        Hdr *h = reinterpret_cast<Hdr *> (*i - RZ - sizeof (Hdr));
        if (u < *i + h->size + 4096)
            where = fmt ("at offset %lld of a heap block of %llu bytes", (long long) (u - *i), (unsigned long long) h->size);
    }
    memerr (fmt ("%s of %zu bytes %s", wr ? "write" : "read", n, where.c_str ()));
    if (W->memerrs.size () > 10) { budget_exceeded ("memory errors"); }
}
static inline bool range_ok (const void *p, size_t n)
{
    u64 a = (u64) p;
    const u64 e = a + n;
    while (a < e)
    {
        const u8 s = *sh (a);
        const u64 lo = a & 7;
        const u64 take = std::min<u64> (8 - lo, e - a);
        if (s != 8 && lo + take > s) return false;
        a += take;
    }
    return true;
}
// Places of the code where workers touch the same memory and at least one of them writes: interesting ones to preempt at.
// Nothing is concluded from them but where to look.
namespace race
{
struct Cell { u64 gran = 0; Thread *who = nullptr; const void *pc = nullptr; u64 epoch = 0; bool wr = false; };
static Cell cells[1 << 14];
static const void *pcs[256];
static u64 decisions = 0;
static inline const void *&slot (const void *pc) { return pcs[(u64 (pc) * 0x9E3779B97F4A7C15ull) >> 56]; }
static inline bool look (Thread *t, const void *p, bool wr, const void *pc)
{
    const u64 g = u64 (p) >> 3;
    Cell &c = cells[(g * 0x9E3779B97F4A7C15ull) >> 50];
    if (c.gran != g || c.epoch != W->regions) { c.gran = g; c.who = t; c.pc = pc; c.epoch = W->regions; c.wr = wr; }
    else if (c.who == t) { if (wr) c.wr = true; c.pc = pc; }
    else if (wr || c.wr)
    {
        slot (c.pc) = c.pc;
        slot (pc) = pc;
        c.who = t; c.pc = pc; c.wr = wr;
    }
    return slot (pc) == pc;
}
}
static inline void access (const void *p, size_t n, bool wr, const void *pc = nullptr)
{
    if (!tls.in_app) return;
    Thread *t = tls.cur;
    if (!t) return;
    if (++W->steps > W->max_steps) step_limit ();
    if (in_arena (p) && !range_ok (p, n)) bad_access (p, n, wr);
    if (t->preempt_left > 0)
    {
        if (W->p_race > 0 && pc && race::look (t, p, wr, pc) && race::decisions < 3000
            && double (mix (W->entropy, ++race::decisions) >> 11) / double (1ull << 53) < W->p_race) { ++W->directed; preempt_point (); }
        else if (--t->preempt_left == 0) preempt_point ();
    }
}
static inline void range (const void *p, size_t n, bool wr, const void *pc = nullptr)
{
    if (!tls.in_app || !tls.cur || n == 0) return;
    W->steps += n >> 6;
    access (p, 1, wr, pc);
    if (in_arena (p) && !range_ok (p, n)) bad_access (p, n, wr);
}
static inline void pulse ()
{
    if (!tls.in_app || !tls.cur) return;
    if (++W->steps > W->max_steps) step_limit ();
}
} // namespace sim

using namespace sim;
void *operator new (size_t n) { return app_new (n, 16, false); }
void *operator new[] (size_t n) { return app_new (n, 16, false); }
void *operator new (size_t n, const std::nothrow_t &) noexcept { return app_new (n, 16, true); }
void *operator new[] (size_t n, const std::nothrow_t &) noexcept { return app_new (n, 16, true); }
void *operator new (size_t n, std::align_val_t a) { return app_new (n, size_t (a), false); }
void *operator new[] (size_t n, std::align_val_t a) { return app_new (n, size_t (a), false); }
void *operator new (size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return app_new (n, size_t (a), true); }
void *operator new[] (size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return app_new (n, size_t (a), true); }
void operator delete (void *p) noexcept { app_delete (p); }
void operator delete[] (void *p) noexcept { app_delete (p); }
void operator delete (void *p, size_t) noexcept { app_delete (p); }
void operator delete[] (void *p, size_t) noexcept { app_delete (p); }
void operator delete (void *p, const std::nothrow_t &) noexcept { app_delete (p); }
void operator delete[] (void *p, const std::nothrow_t &) noexcept { app_delete (p); }
void operator delete (void *p, std::align_val_t) noexcept { app_delete (p); }
void operator delete[] (void *p, std::align_val_t) noexcept { app_delete (p); }
void operator delete (void *p, size_t, std::align_val_t) noexcept { app_delete (p); }
void operator delete[] (void *p, size_t, std::align_val_t) noexcept { app_delete (p); }

extern "C" {
#define RW(n) \
    void __tsan_read##n (void *a) { access (a, n, false, __builtin_return_address (0)); } \
    void __tsan_write##n (void *a) { access (a, n, true, __builtin_return_address (0)); } \
    void __tsan_unaligned_read##n (void *a) { access (a, n, false, __builtin_return_address (0)); } \
    void __tsan_unaligned_write##n (void *a) { access (a, n, true, __builtin_return_address (0)); } \
    void __tsan_volatile_read##n (void *a) { access (a, n, false, __builtin_return_address (0)); } \
    void __tsan_volatile_write##n (void *a) { access (a, n, true, __builtin_return_address (0)); } \
    void __tsan_unaligned_volatile_read##n (void *a) { access (a, n, false, __builtin_return_address (0)); } \
    void __tsan_unaligned_volatile_write##n (void *a) { access (a, n, true, __builtin_return_address (0)); } \
    void __tsan_read_write##n (void *a) { access (a, n, true, __builtin_return_address (0)); } \
    void __tsan_unaligned_read_write##n (void *a) { access (a, n, true, __builtin_return_address (0)); }
RW (1) RW (2) RW (4) RW (8) RW (16)
void __tsan_read_range (void *a, size_t n) { range (a, n, false, __builtin_return_address (0)); }
void __tsan_write_range (void *a, size_t n) { range (a, n, true, __builtin_return_address (0)); }
void __tsan_init () {}
void __tsan_func_entry (void *) { pulse (); }
void __tsan_func_exit () {}
void __tsan_vptr_update (void **a, void *) { access (a, 8, true); }
void __tsan_vptr_read (void **a) { access (a, 8, false); }
#define AT(bits, T) \
    T __tsan_atomic##bits##_load (const volatile T *a, int) { access ((void *) a, sizeof (T), false, __builtin_return_address (0)); return *a; } \
    void __tsan_atomic##bits##_store (volatile T *a, T v, int) { access ((void *) a, sizeof (T), true, __builtin_return_address (0)); *a = v; } \
    T __tsan_atomic##bits##_exchange (volatile T *a, T v, int) { access ((void *) a, sizeof (T), true, __builtin_return_address (0)); T o = *a; *a = v; return o; } \
    T __tsan_atomic##bits##_fetch_add (volatile T *a, T v, int) { access ((void *) a, sizeof (T), true, __builtin_return_address (0)); T o = *a; *a = T (o + v); return o; } \
    T __tsan_atomic##bits##_fetch_sub (volatile T *a, T v, int) { access ((void *) a, sizeof (T), true, __builtin_return_address (0)); T o = *a; *a = T (o - v); return o; } \
    T __tsan_atomic##bits##_fetch_and (volatile T *a, T v, int) { access ((void *) a, sizeof (T), true, __builtin_return_address (0)); T o = *a; *a = T (o & v); return o; } \
    T __tsan_atomic##bits##_fetch_or (volatile T *a, T v, int) { access ((void *) a, sizeof (T), true, __builtin_return_address (0)); T o = *a; *a = T (o | v); return o; } \
    T __tsan_atomic##bits##_fetch_xor (volatile T *a, T v, int) { access ((void *) a, sizeof (T), true, __builtin_return_address (0)); T o = *a; *a = T (o ^ v); return o; } \
    T __tsan_atomic##bits##_fetch_nand (volatile T *a, T v, int) { access ((void *) a, sizeof (T), true, __builtin_return_address (0)); T o = *a; *a = T (~(o & v)); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong (volatile T *a, T *e, T v, int, int) { access ((void *) a, sizeof (T), true, __builtin_return_address (0)); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak (volatile T *a, T *e, T v, int, int) { access ((void *) a, sizeof (T), true, __builtin_return_address (0)); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val (volatile T *a, T e, T v, int, int) { access ((void *) a, sizeof (T), true, __builtin_return_address (0)); T o = *a; if (o == e) *a = v; return o; }
AT (8, u8) AT (16, u16) AT (32, u32) AT (64, u64)
void __tsan_atomic_thread_fence (int) {}
void __tsan_atomic_signal_fence (int) {}
// linked with --wrap: block copies made by the code under test
void *__real_memcpy (void *, const void *, size_t);
void *__wrap_memcpy (void *d, const void *s, size_t n) { range (s, n, false, __builtin_return_address (0)); range (d, n, true, __builtin_return_address (0)); return memmove (d, s, n); }
void *__wrap_memmove (void *d, const void *s, size_t n) { range (s, n, false, __builtin_return_address (0)); range (d, n, true, __builtin_return_address (0)); return memmove (d, s, n); }
void *__wrap_memset (void *d, int c, size_t n) { range (d, n, true, __builtin_return_address (0)); return memset (d, c, n); }
}

extern "C" {
unsigned long long sim_live (void) { return tls.cur && tls.cur->proc ? tls.cur->proc->live + tls.cur->proc->zlive : 0; }
unsigned long long sim_fds (void) { return tls.cur && tls.cur->proc ? tls.cur->proc->fds.size () : 0; }
int sim_set_app (int on) { const int o = tls.in_app; tls.in_app = on != 0; return o; }
void sim_alloc_arm (long long at, int forever, int kind) { armed = {true, at, forever != 0, kind, 0, 0}; }
unsigned long long sim_alloc_disarm (unsigned long long *f) { armed.on = false; if (f) *f = armed.faults; return armed.count; }
}
