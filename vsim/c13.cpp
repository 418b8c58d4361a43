#include "c13.hpp"
#include <cstdlib>
#include <new>
namespace svc
{
bool armed = false; std::uint64_t allocs = 0, fail_at = 0; bool fired = false; unsigned char fill = 0;
std::vector<Kind>& kinds() { static std::vector<Kind> k; return k; }
}
void* operator new(std::size_t n)
{
    if(svc::armed && ++svc::allocs == svc::fail_at) { svc::fired = true; throw std::bad_alloc(); }
    void* p = std::malloc(n ? n : 1); if(!p) throw std::bad_alloc();
    std::memset(p, svc::fill, n);                           // recycled memory holds anything
    return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }

SIM_SCENARIO(tables)
{
    static bool sorted = false;
    if(!sorted) { std::sort(svc::kinds().begin(), svc::kinds().end(), [](svc::Kind const& a, svc::Kind const& b) { return std::strcmp(a.name, b.name) < 0; }); sorted = true; }
    svc::fill = S.dirt();
    svc::Kind const& k = svc::kinds()[S.strat(svc::kinds().size())];
    k.run(S, k.name);
}
int main(int argc, char** argv) { return sim::main_(argc, argv, "C13", BUILD_NAME); }
