// Every load, store, atomic operation, lock and allocation of the code compiled with -fsanitize=thread arrives here:
// the instrumentation is the compiler's, the run-time library behind it is this simulator's.
#pragma once
#include <cstddef>
#include <cstdint>

namespace vt
{
enum : unsigned { READ = 0, WRITE = 1, ATOMIC = 2 };
enum Order { RELAXED, ACQUIRE, RELEASE, ACQ_REL };

struct Hooks
{
    void (*access)(std::uintptr_t a, std::size_t n, unsigned flags);
    void (*sync)(void const* a, Order o, bool store);         // after the access of an atomic operation
    bool (*block)(void const* a);                             // the lock at a is taken: let others run; false = nobody can
    void (*wake)(void const* a);                              // a lock was released
    void (*alloc)(void* p, std::size_t n);
    void (*release)(void* p);
};
extern Hooks hooks;
extern bool fence_seen;
extern thread_local int guarded;                              // >0 while a function-local static is being initialised
extern thread_local int on;                                   // 1 while the code under simulation runs on this thread

int set_on(int x);                                             // out of line: never instrumented
struct Off { int s; Off(): s(set_on(0)) {} ~Off() { set_on(s); } };
struct On { int s; On(): s(set_on(1)) {} ~On() { set_on(s); } };

// bump allocator used by operator new while it is open; memory is never given out twice
void arena_open(std::size_t bytes);
void arena_close();
extern unsigned char arena_fill;                             // what fresh memory looks like
extern char* arena_lo; extern char* arena_hi; extern char* arena_cur;
}
