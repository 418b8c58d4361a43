#include "vt.hpp"
#include <cstdlib>
#include <cstring>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
#include <unistd.h>

namespace vt
{
Hooks hooks;
thread_local int on, guarded;
bool fence_seen;
unsigned char arena_fill;
char *arena_lo, *arena_hi, *arena_cur; int set_on(int x) { int r = on; on = x; return r; }

void arena_open(std::size_t bytes)
{
    if(!arena_lo)
    {
        void* p = mmap(0, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if(p == MAP_FAILED) _exit(70);
        arena_lo = static_cast<char*>(p); arena_hi = arena_lo + bytes;
    }
    arena_cur = arena_lo;
}
void arena_close() { arena_cur = 0; }

static inline void acc(void const* p, std::size_t n, unsigned f)
{
    if(!on || !n || !hooks.access) return;
    Off o; hooks.access(reinterpret_cast<std::uintptr_t>(p), n, f);
}
static inline void syn(void const* p, int mo, bool load, bool store)
{
    if(!on || !hooks.sync) return;
    Off o;
    bool a = load && (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST);
    bool r = store && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST);
    hooks.sync(p, a && r ? ACQ_REL : a ? ACQUIRE : r ? RELEASE : RELAXED, store);
}
static void lock(void const* p) { if(on && hooks.sync) { Off o; hooks.sync(p, ACQUIRE, false); } }
static void unlock(void const* p) { if(on && hooks.sync) { Off o; hooks.sync(p, RELEASE, true); if(hooks.wake) hooks.wake(p); } }
static void wait(void const* p)
{
    Off o;
    if(!on && !o.s) abort();                            // a lock is taken outside the simulation
    if(!hooks.block || !hooks.block(p)) _exit(78);      // deadlock
}
}
using namespace vt;

extern "C"
{
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
    void __tsan_read##n(void* p) { acc(p, n, READ); } \
    void __tsan_write##n(void* p) { acc(p, n, WRITE); } \
    void __tsan_read_write##n(void* p) { acc(p, n, READ); acc(p, n, WRITE); } \
    void __tsan_unaligned_read##n(void* p) { acc(p, n, READ); } \
    void __tsan_unaligned_write##n(void* p) { acc(p, n, WRITE); } \
    void __tsan_unaligned_read_write##n(void* p) { acc(p, n, READ); acc(p, n, WRITE); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) { acc(p, 8, WRITE); }
void __tsan_vptr_read(void** p) { acc(p, 8, READ); }
void __tsan_read_range(void* p, unsigned long n) { acc(p, n, READ); }
void __tsan_write_range(void* p, unsigned long n) { acc(p, n, WRITE); }
void* __tsan_memcpy(void* d, void const* s, unsigned long n) { acc(s, n, READ); acc(d, n, WRITE); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, void const* s, unsigned long n) { acc(s, n, READ); acc(d, n, WRITE); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { acc(d, n, WRITE); return memset(d, c, n); }

#define AT(bits, T) \
    T __tsan_atomic##bits##_load(T const volatile* p, int mo) { acc((void*)p, sizeof(T), READ | ATOMIC); T r = __atomic_load_n(p, __ATOMIC_SEQ_CST); syn((void*)p, mo, true, false); return r; } \
    void __tsan_atomic##bits##_store(T volatile* p, T v, int mo) { acc((void*)p, sizeof(T), WRITE | ATOMIC); syn((void*)p, mo, false, true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    AR(bits, T, exchange, __atomic_exchange_n) AR(bits, T, fetch_add, __atomic_fetch_add) AR(bits, T, fetch_sub, __atomic_fetch_sub) AR(bits, T, fetch_and, __atomic_fetch_and) \
    AR(bits, T, fetch_or, __atomic_fetch_or) AR(bits, T, fetch_xor, __atomic_fetch_xor) AR(bits, T, fetch_nand, __atomic_fetch_nand) \
    int __tsan_atomic##bits##_compare_exchange_strong(T volatile* p, T* e, T v, int mo, int) { acc((void*)p, sizeof(T), WRITE | ATOMIC); int r = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); syn((void*)p, mo, true, r); return r; } \
    int __tsan_atomic##bits##_compare_exchange_weak(T volatile* p, T* e, T v, int mo, int f) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, f); } \
    T __tsan_atomic##bits##_compare_exchange_val(T volatile* p, T e, T v, int mo, int f) { __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, f); return e; }
#define AR(bits, T, nm, bi) T __tsan_atomic##bits##_##nm(T volatile* p, T v, int mo) { acc((void*)p, sizeof(T), WRITE | ATOMIC); T r = bi(p, v, __ATOMIC_SEQ_CST); syn((void*)p, mo, true, true); return r; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
static char fence_;

void __tsan_atomic_thread_fence(int) { fence_seen = true; syn(&fence_, __ATOMIC_SEQ_CST, true, true); }
void __tsan_atomic_signal_fence(int) {}

// libcalls that the instrumentation does not see (-Wl,--wrap)
int __real_memcmp(void const*, void const*, size_t);
int __wrap_memcmp(void const* a, void const* b, size_t n) { acc(a, n, READ); acc(b, n, READ); return __real_memcmp(a, b, n); }
int __real_bcmp(void const*, void const*, size_t);
int __wrap_bcmp(void const* a, void const* b, size_t n) { acc(a, n, READ); acc(b, n, READ); return __real_bcmp(a, b, n); }
size_t __real_strlen(char const*);
size_t __wrap_strlen(char const* a) { size_t n = __real_strlen(a); acc(a, n + 1, READ); return n; }

// locks: never blocking a real thread that another one is waiting for
static bool sim() { return on != 0; }
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if(!sim()) return __real_pthread_mutex_lock(m);
    acc(m, 1, WRITE | ATOMIC);
    int r;
    while((r = __real_pthread_mutex_trylock(m)) == 16 /* EBUSY */) wait(m);
    vt::lock(m);
    return r;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
    if(sim()) acc(m, 1, WRITE | ATOMIC);
    int r = __real_pthread_mutex_trylock(m);
    if(sim() && r == 0) vt::lock(m);
    return r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    if(sim()) acc(m, 1, WRITE | ATOMIC);
    int r = __real_pthread_mutex_unlock(m);
    vt::unlock(m);
    return r;
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*); int pthread_rwlock_tryrdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*); int pthread_rwlock_trywrlock(pthread_rwlock_t*); int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if(!sim()) return __real_pthread_rwlock_rdlock(m);
    acc(m, 1, WRITE | ATOMIC);
    int r;
    while((r = pthread_rwlock_tryrdlock(m)) == 16) wait(m);
    vt::lock(m);
    return r;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if(!sim()) return __real_pthread_rwlock_wrlock(m);
    acc(m, 1, WRITE | ATOMIC);
    int r;
    while((r = pthread_rwlock_trywrlock(m)) == 16) wait(m);
    vt::lock(m);
    return r;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if(sim()) acc(m, 1, WRITE | ATOMIC);
    int r = __real_pthread_rwlock_unlock(m);
    vt::unlock(m);
    return r;
}
int __real_pthread_once(pthread_once_t*, void (*)());
int __wrap_pthread_once(pthread_once_t* o, void (*f)())
{
    if(!sim()) return __real_pthread_once(o, f);
    acc(o, 1, WRITE | ATOMIC);
    int volatile* st = o;
    while(*st == 1) wait(o);
    if(*st == 0) { *st = 1; try { f(); } catch(...) { *st = 0; vt::unlock(o); throw; } *st = 2; vt::unlock(o); }
    vt::lock(o);
    return 0;
}

// function-local statics
int __cxa_guard_acquire(std::int64_t* g)
{
    unsigned char volatile* b = reinterpret_cast<unsigned char*>(g);
    acc(g, 1, READ | ATOMIC);
    while(b[0] == 0 && b[1] == 1) { if(!sim()) abort(); wait(g); }
    vt::lock(g);
    if(b[0]) return 0;
    b[1] = 1; ++guarded;
    return 1;
}
void __cxa_guard_release(std::int64_t* g)
{
    unsigned char volatile* b = reinterpret_cast<unsigned char*>(g);
    acc(g, 1, WRITE | ATOMIC);
    --guarded; b[1] = 0; vt::unlock(g); b[0] = 1;
}
void __cxa_guard_abort(std::int64_t* g) { reinterpret_cast<unsigned char volatile*>(g)[1] = 0; --guarded; vt::unlock(g); }
}

// ---- memory
static void* get(std::size_t n, std::size_t al)
{
    void* p;
    if(arena_cur)
    {
        std::uintptr_t a = (reinterpret_cast<std::uintptr_t>(arena_cur) + al - 1) / al * al;
        if(a + n + 16 > reinterpret_cast<std::uintptr_t>(arena_hi)) return 0;
        arena_cur = reinterpret_cast<char*>(a) + n + 16;
        p = reinterpret_cast<void*>(a);
        std::memset(p, arena_fill, n);
    }
    else p = al <= 16 ? malloc(n ? n : 1) : aligned_alloc(al, (n + al - 1) / al * al);
    if(p && on && hooks.alloc) { Off o; hooks.alloc(p, n); }
    return p;
}
static void put(void* p)
{
    if(!p) return;
    if(on && hooks.release) { Off o; hooks.release(p); }
    if(p >= arena_lo && p < arena_hi) return;
    free(p);
}
void* operator new(std::size_t n) { void* p = get(n, 16); if(!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { void* p = get(n, 16); if(!p) throw std::bad_alloc(); return p; }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { return get(n, 16); }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { return get(n, 16); }
void* operator new(std::size_t n, std::align_val_t a) { void* p = get(n, (std::size_t)a); if(!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n, std::align_val_t a) { void* p = get(n, (std::size_t)a); if(!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, std::size_t) noexcept { put(p); }
void operator delete[](void* p, std::size_t) noexcept { put(p); }
void operator delete(void* p, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { put(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { put(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { put(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { put(p); }
