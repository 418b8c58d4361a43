// Deterministic simulation core: one tape of choices decides everything in a run.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
// (the standard headers come first, so that a library header that forgets one is not what is judged)
#include <algorithm>
#include <array>
#include <cstring>
#include <functional>
#include <iterator>
#include <limits>
#include <memory>
#include <ostream>
#include <istream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace sim
{

struct Violation { std::string cls, msg; };

// splitmix/xoshiro style generator; used only behind Sim::choose and for data expansion
struct Rng
{
    std::uint64_t s[2];
    explicit Rng(std::uint64_t seed = 0);
    std::uint64_t next();
};

std::uint64_t mix64(std::uint64_t x);
std::uint64_t fnv(void const* p, std::size_t n, std::uint64_t h = 0xcbf29ce484222325ull);

typedef std::vector<unsigned char> Bytes;

class Sim
{
public:
    // ---- choices (the only source of nondeterminism) ----
    std::uint64_t choose(std::uint64_t n);                 // 0..n-1; 0 is the simplest / fault-free alternative
    std::uint64_t range(std::uint64_t lo, std::uint64_t hi) { return lo + choose(hi - lo + 1); }
    bool chance(unsigned p, unsigned q) { return choose(q) >= q - p; }   // 0 => false
    std::uint64_t strat(std::uint64_t n);                  // like choose, but stratified over the run index when generating
    std::uint64_t u64();
    std::uint64_t edgy64();                                // biased to small / boundary values
    std::size_t length(std::size_t block, std::size_t max); // biased to block boundaries
    template<class T> T const& pick(std::vector<T> const& v) { return v[choose(v.size())]; }
    Bytes data(std::size_t n);                             // one recorded choice, expanded
    void fill(void* p, std::size_t n);

    // ---- log ----
    void ev(char const* fmt, ...) __attribute__((format(printf, 2, 3)));
    void step(std::uint64_t ticks = 1) { now_ += ticks; ++steps_; }
    std::uint64_t now() const { return now_; }

    // ---- oracle ----
    [[noreturn]] void fail(char const* cls, char const* fmt, ...) __attribute__((format(printf, 3, 4)));
    void fail_later(char const* cls, char const* fmt, ...) __attribute__((format(printf, 3, 4)));
    void check_deferred();

    // ---- reach ----
    void fault(char const* kind, std::uint64_t k = 1);     // a fault that actually fired
    void probe(char const* what, std::uint64_t k = 1);     // a rare condition that was hit
    void cov(std::uint64_t a, std::uint64_t b = 0, std::uint64_t c = 0, std::uint64_t d = 0); // abstract state
    void nontrivial() { nontrivial_ = true; }
    void oracle(std::uint64_t k = 1);                      // number of oracle evaluations

    unsigned char dirt() const { return dirt_; }           // fill pattern of this run
    bool verbose() const { return verbose_; }

    // ---- used by the runner ----
    struct Impl;
    Impl* impl = nullptr;
    bool replay_ = false, verbose_ = false, nontrivial_ = false;
    Rng rng_;
    Rng* synth_ = nullptr;     // set while a Synth is alive: choices are expanded from one recorded seed
    std::vector<std::uint32_t> in_;
    std::uint32_t* tape_ = nullptr; std::uint64_t* tape_len_ = nullptr;
    std::uint64_t strat_ = 0;
    std::uint64_t pos_ = 0, now_ = 0, steps_ = 0;
    volatile std::uint64_t* hash_ = nullptr;
    unsigned char dirt_ = 0;
    std::string text_;
    bool deferred_ = false; Violation dv_;
};

// While alive (and switched on), every choice is drawn from a generator seeded by one recorded
// choice, so that a bulky value costs one entry of the tape. It is still a function of the tape alone.
struct Synth
{
    Sim& S; Rng rng; bool on;
    Synth(Sim& s, bool want): S(s), on(want && !s.synth_) { if(on) { rng = Rng(S.choose(0x100000000ull)); S.synth_ = &rng; } }
    ~Synth() { if(on) S.synth_ = nullptr; }
    Synth(Synth const&) = delete; Synth& operator=(Synth const&) = delete;
};

struct Scenario
{
    char const* name;
    void (*run)(Sim&);
    unsigned cpu_limit_s;      // CPU seconds one run may use before it counts as a hang
    void (*prepare)();         // called once in every worker before its first run (may be null)
};

struct Register { Register(char const* name, void (*run)(Sim&), unsigned cpu = 20, void (*prepare)() = nullptr); };

#define SIM_SCENARIO(nm) \
    static void nm(sim::Sim& S); \
    static sim::Register reg_##nm(#nm, nm); \
    static void nm(sim::Sim& S)
#define SIM_SCENARIO_CPU(nm, cpu) \
    static void nm(sim::Sim& S); \
    static sim::Register reg_##nm(#nm, nm, cpu); \
    static void nm(sim::Sim& S)

int main_(int argc, char** argv, char const* prop, char const* build);

std::string hex(void const* p, std::size_t n);
inline std::string hex(Bytes const& b) { return hex(b.data(), b.size()); }

} // namespace sim
