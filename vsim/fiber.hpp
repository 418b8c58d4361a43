// Fibers on one thread: the access hook may leave the running fiber at any load, store, atomic operation or lock.
#pragma once
#include "sched.hpp"

namespace fiber
{
struct Report
{
    std::uint64_t accesses = 0, switches = 0, nested = 0;
    std::vector<bool> done;                                 // false: abandoned in the middle
};
// runs all of them on this thread, interrupting each other; hot: memory that several of them use
Report weave(sim::Sim& S, std::vector<std::function<void()>> const& f, std::vector<sched::Solo> const& solo);
}
