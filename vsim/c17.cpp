// C17: library operations interrupted by other library operations on the same thread, or never finished.
#include "session.hpp"
#include "fiber.hpp"

namespace
{
void run(Sim& S)
{
    vt::arena_fill = S.dirt(); vt::arena_open(64 << 20);
    Shared* W = new Shared;
    int nf = 2 + (int)S.choose(4);
    ref::Alg favourite = (ref::Alg)S.strat(ref::NDOC); bool fav = S.choose(4) != 0, same = S.choose(3) == 2;
    make_world(S, W, favourite, fav);
    std::vector<std::unique_ptr<Prog>> progs;
    for(int i = 0; i < nf; ++i)
    {
        Prog* p = new Prog; progs.emplace_back(p);
        make_prog(S, *W, *p, favourite, fav);
        if(same && i > 0) p->ops = std::vector<Op>(progs[0]->ops), p->own = progs[0]->own;
    }
    S.ev("programs %d alg %s%s", nf, fav ? ref::name(favourite) : "any", same ? " same program" : "");
    for(int i = 0; i < nf; ++i)
    {
        std::string t;
        for(Op const& op: progs[i]->ops) { char b[48]; std::snprintf(b, sizeof b, " %d/%d,%d,%d,%d", op.k, op.a, op.b, op.c, (int)op.n); t += b; }
        S.ev("f%d:%.400s", i, t.c_str());
    }
    char const* fresh = vt::arena_cur;
    std::vector<Bytes> expect(nf); std::vector<sched::Solo> solo(nf);
    for(int i = 0; i < nf; ++i)
    {
        Bytes r = in_child(S, [&]() -> Bytes
        {
            Bytes out, b; out.reserve(4096);
            sched::save(sched::alone([&]() { perform(*W, *progs[i], out); }, fresh), b); b.insert(b.end(), out.begin(), out.end());
            return b;
        });
        std::size_t pos = 0; solo[i] = sched::load(r, pos);
        expect[i].assign(r.begin() + pos, r.end());
    }
    std::vector<Bytes> got(nf);
    std::vector<std::function<void()>> f;
    for(int i = 0; i < nf; ++i) f.push_back([&, i]() { perform(*W, *progs[i], got[i]); });
    fiber::Report R = fiber::weave(S, f, solo);
    S.oracle(nf);
    S.cov(fav ? favourite : 99, (std::uint64_t)nf * 64 + std::min<std::uint64_t>(R.switches, 63), progs[0]->ops[0].k, R.nested);
    if(R.switches) S.nontrivial();
    if(R.nested > 1) S.probe("interrupted_interrupts");
    auto check = [&](int i, Bytes const& b, char const* what)
    {
        if(b != expect[i]) S.fail("result-differs", "program %d of %d %s obtained other results than when it ran alone: %s instead of %s", i, nf, what, hex(b).substr(0, 300).c_str(), hex(expect[i]).substr(0, 300).c_str());
    };
    for(int i = 0; i < nf; ++i) if(R.done[i]) check(i, got[i], "that was interrupted or interrupted others");
    // what was abandoned is started again from the beginning, and one more
    int again = (int)S.choose(nf);
    for(int i = 0; i < nf; ++i) if(!R.done[i] || i == again)
    {
        Bytes b;
        { vt::On on; perform(*W, *progs[i], b); }
        check(i, b, R.done[i] ? "that ran afterwards" : "that was abandoned and started again");
    }
}
}

static void fibers(Sim& S) { algs::table(ref::FNV32); val::types(); val::flavor(0); val::direct_alg(0); val::direct_flavor(0); isolated(S, [&]() { run(S); }); }
static sim::Register reg_fibers("fibers", fibers, 60);

int main(int argc, char** argv) { return sim::main_(argc, argv, "C17", BUILD_NAME); }
