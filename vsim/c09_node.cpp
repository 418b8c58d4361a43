// one run-time node, built as a shared object
#include "c09_node.hpp"
#include <cstring>
#if defined(VSIM_SERVE)
# define VSIM_TLS
#else
# define VSIM_TLS thread_local
#endif
extern "C" __attribute__((visibility("default"))) char const* vsim_node_name() { return VSIM_NODE_NAME; }
extern "C" __attribute__((visibility("default"))) long vsim_node_run(unsigned char const* p, unsigned long n, unsigned char* out, unsigned long max)
{
    static VSIM_TLS node::Out o; o.n = 0; o.over = false;
    bool ok = node::run(p, n, o);
    if(!ok) return -1;
    if(o.over || o.n > max) return -2;
    std::memcpy(out, o.b, o.n); return (long)o.n;
}
extern "C" __attribute__((visibility("default"))) int vsim_node_types()
{
#if defined(BOOST_DESCRIBE_CXX14)
    return 14;
#else
    return 11;
#endif
}
#if defined(VSIM_BIG)
// the one part of the library's containers that is compiled code of the host and reads a number in memory
namespace std { namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { n |= 1; _M_next_resize = n; return n; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const
{
    if(n_elt + n_ins <= n_bkt && n_bkt > 1) return pair<bool, size_t>(false, 0);
    return pair<bool, size_t>(true, _M_next_bkt(2 * n_bkt + n_ins + 10));
}
} }
#endif
#if defined(VSIM_SERVE)
// A 32-bit machine: a process of its own without an operating system's libraries. It answers requests (4 bytes of length,
// the program) with 4 bytes of result and that many bytes.
static int sys(int n, int a, int b, int c) { int r; __asm__ volatile("int $0x80" : "=a"(r) : "a"(n), "b"(a), "c"(b), "d"(c) : "memory"); return r; }
#define VSIM_C extern "C" __attribute__((used, no_builtin))
VSIM_C void* memcpy(void* d, void const* s, size_t n) { char* p = (char*)d; char const* q = (char const*)s; void* r = d; (void)p; (void)q; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory"); return r; }
VSIM_C void* memmove(void* d, void const* s, size_t n) { char* p = (char*)d; char const* q = (char const*)s; if(p <= q) { for(size_t i = 0; i < n; ++i) { p[i] = q[i]; __asm__ volatile("" ::: "memory"); } } else for(size_t i = n; i-- > 0;) { p[i] = q[i]; __asm__ volatile("" ::: "memory"); } return d; }
VSIM_C void* memset(void* d, int c, size_t n) { void* r = d; __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }
VSIM_C int memcmp(void const* a, void const* b, size_t n) { unsigned char const* p = (unsigned char const*)a; unsigned char const* q = (unsigned char const*)b; for(size_t i = 0; i < n; ++i) if(p[i] != q[i]) return p[i] < q[i] ? -1 : 1; return 0; }
VSIM_C int bcmp(void const* a, void const* b, size_t n) { return memcmp(a, b, n); }
VSIM_C size_t strlen(char const* s) { size_t n = 0; while(s[n]) { ++n; __asm__ volatile("" ::: "memory"); } return n; }
VSIM_C wchar_t* wmemcpy(wchar_t* d, wchar_t const* s, size_t n) { memcpy(d, s, n * sizeof(wchar_t)); return d; }
VSIM_C wchar_t* wmemmove(wchar_t* d, wchar_t const* s, size_t n) { memmove(d, s, n * sizeof(wchar_t)); return d; }
VSIM_C wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n) { for(size_t i = 0; i < n; ++i) d[i] = c; return d; }
VSIM_C size_t wcslen(wchar_t const* s) { size_t n = 0; while(s[n]) ++n; return n; }
static void die(char const* why) { sys(4, 2, (int)why, (int)strlen(why)); sys(252, 86, 0, 0); __builtin_unreachable(); }
VSIM_C void __assert_fail(char const* e, char const*, unsigned, char const*) noexcept { die(e); __builtin_unreachable(); }
VSIM_C void abort() noexcept { die("abort"); __builtin_unreachable(); }
VSIM_C void __cxa_pure_virtual() { die("pure"); }
VSIM_C int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }
VSIM_C void* __dso_handle = 0;
static unsigned char heap[24 << 20]; static size_t heap_at;
void* operator new(size_t n) { size_t k = (n + 15) & ~(size_t)15; if(k < n || k > sizeof heap - heap_at) die("memory"); void* p = heap + heap_at; heap_at += k; return p; }
void operator delete(void*) noexcept {}
void operator delete(void*, size_t) noexcept {}
namespace std
{
void __throw_bad_alloc() { die("bad_alloc"); __builtin_unreachable(); }
void __throw_bad_array_new_length() { die("bad_array_new_length"); __builtin_unreachable(); }
void __throw_length_error(char const*) { die("length_error"); __builtin_unreachable(); }
void __throw_logic_error(char const*) { die("logic_error"); __builtin_unreachable(); }
void __throw_out_of_range_fmt(char const*, ...) { die("out_of_range"); __builtin_unreachable(); }
void __glibcxx_assert_fail(char const*, int, char const*, char const* c) noexcept { die(c ? c : "assertion"); __builtin_unreachable(); }
size_t _Hash_bytes(void const* p, size_t n, size_t s) { unsigned char const* q = (unsigned char const*)p; for(size_t i = 0; i < n; ++i) s = (s ^ q[i]) * 16777619u; return s; }
namespace __detail
{
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { n |= 1; _M_next_resize = n; return n; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const
{
    if(n_elt + n_ins <= n_bkt && n_bkt > 1) return pair<bool, size_t>(false, 0);
    return pair<bool, size_t>(true, _M_next_bkt(2 * n_bkt + n_ins + 10));
}
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
{
    if(x->_M_right) { x = x->_M_right; while(x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent; while(x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
_Rb_tree_node_base const* _Rb_tree_increment(_Rb_tree_node_base const* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
{
    if(x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if(x->_M_left) { x = x->_M_left; while(x->_M_right) x = x->_M_right; return x; }
    _Rb_tree_node_base* y = x->_M_parent; while(x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
_Rb_tree_node_base const* _Rb_tree_decrement(_Rb_tree_node_base const* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()      // a tree need not be balanced
{
    x->_M_parent = p; x->_M_left = x->_M_right = 0; x->_M_color = _S_black;
    if(left) { p->_M_left = x; if(p == &h) { h._M_parent = x; h._M_right = x; } else if(p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if(p == h._M_right) h._M_right = x; }
}
}
static bool all(int fd, bool in, void* b, int n)
{
    char* p = (char*)b;
    while(n > 0) { int k = in ? sys(3, fd, (int)p, n) : sys(4, fd, (int)p, n); if(k == -4) continue; if(k <= 0) return false; p += k; n -= k; }
    return true;
}
static unsigned char req[70000], ans[70000];
extern "C" __attribute__((used, visibility("default"))) void vsim_serve()
{
    for(;;)
    {
        unsigned n; if(!all(0, true, &n, 4) || n > sizeof req - 1 || !all(0, true, req, (int)n)) sys(252, 0, 0, 0);
        heap_at = 0; int r = (int)vsim_node_run(req, n, ans, sizeof ans);
        if(!all(1, false, &r, 4) || (r > 0 && !all(1, false, ans, r))) sys(252, 1, 0, 0);
    }
}
__asm__(".globl _start\n_start:\n xorl %ebp,%ebp\n andl $-16,%esp\n call vsim_serve\n");
#endif
