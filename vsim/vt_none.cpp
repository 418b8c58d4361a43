// for builds with another allocator: no arena, no hooks
#include "vt.hpp"
namespace vt { Hooks hooks; thread_local int on, guarded; bool fence_seen; unsigned char arena_fill; char *arena_lo, *arena_hi, *arena_cur; int set_on(int x) { int r = on; on = x; return r; } void arena_open(std::size_t) {} void arena_close() {} }
