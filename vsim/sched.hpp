// Baton-passing scheduler for real threads: exactly one of them runs at a time, and every switch is a choice of the tape.
// Vector clocks detect conflicting accesses that no synchronisation orders.
#pragma once
#include "core.hpp"
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sched
{
enum { MAXT = 4 };

struct Report { bool race = false; std::string text; std::uint64_t accesses = 0, switches = 0, shared = 0, sync = 0; bool deadlock = false; };

struct Solo { std::uint64_t count = 0; std::map<std::uintptr_t, bool> granules; };    // accesses made; 8-byte granules of memory older than the call, and whether it was written
// one thread, no preemption
Solo alone(std::function<void()> const& f, char const* fresh);        // fresh: where allocations made since the fork start
void save(Solo const& s, sim::Bytes& b);
Solo load(sim::Bytes const& b, std::size_t& pos);
// all of them under a schedule drawn from S; solo[i]: what thread i does when it is alone
Report together(sim::Sim& S, std::vector<std::function<void()>> const& f, std::vector<Solo> const& solo, std::function<std::string(std::uintptr_t)> const& where);
// what an address is, for messages
}

namespace sim
{
// runs f in a forked copy of this process; the tape and the log continue in the copy, and so does a violation
void isolated(Sim& S, std::function<void()> const& f);
// runs f in a forked copy and returns its bytes
Bytes in_child(Sim& S, std::function<Bytes()> const& f);
}
