// C04: independent sessions and concurrent const operations under every interleaving.
// Everything in this file and in types_*.cpp is compiled with thread instrumentation whose run-time library is vt.cpp + sched.cpp.
#include "session.hpp"

namespace
{
void run(Sim& S)
{
    vt::arena_fill = S.dirt(); vt::arena_open(64 << 20);
    Shared* W = new Shared;
    int nt = 2 + (int)S.choose(3);
    ref::Alg favourite = (ref::Alg)S.strat(ref::NDOC); bool fav = S.choose(4) != 0, same = S.choose(3) == 2;
    make_world(S, W, favourite, fav);

    std::vector<std::unique_ptr<Prog>> progs;
    for(int i = 0; i < nt; ++i)
    {
        Prog* p = new Prog; progs.emplace_back(p);
        make_prog(S, *W, *p, favourite, fav);
        if(same && i > 0) p->ops = std::vector<Op>(progs[0]->ops), p->own = progs[0]->own;
    }
    S.ev("threads %d alg %s%s%s", nt, fav ? ref::name(favourite) : "any", same ? " same program" : "", "");
    for(int i = 0; i < nt; ++i)
    {
        std::string t;
        for(Op const& op: progs[i]->ops) { char b[48]; std::snprintf(b, sizeof b, " %d/%d,%d,%d,%d", op.k, op.a, op.b, op.c, (int)op.n); t += b; }
        S.ev("t%d:%.400s", i, t.c_str());
    }

    char const* fresh = vt::arena_cur;
    std::vector<Bytes> expect(nt); std::vector<sched::Solo> solo(nt);
    for(int i = 0; i < nt; ++i)
    {
        Bytes r = in_child(S, [&]() -> Bytes
        {
            Bytes out;
            Bytes b; out.reserve(4096);
            sched::save(sched::alone([&]() { perform(*W, *progs[i], out); }, fresh), b); b.insert(b.end(), out.begin(), out.end());
            return b;
        });
        std::size_t pos = 0; solo[i] = sched::load(r, pos);
        expect[i].assign(r.begin() + pos, r.end());
    }
    std::vector<Bytes> got(nt);
    std::vector<std::function<void()>> f;
    for(int i = 0; i < nt; ++i) f.push_back([&, i]() { perform(*W, *progs[i], got[i]); });
    auto where = [&](std::uintptr_t a) -> std::string
    {
        char const* p = reinterpret_cast<char const*>(a);
        for(int i = 0; i < 3; ++i)
        {
            if((void*)p >= W->proto[i].mem && (void*)p < W->proto[i].mem + algs::MAXOBJ) return std::string("byte ") + std::to_string((unsigned char*)p - W->proto[i].mem) + " of a shared const hash object (" + ref::name(W->proto[i].a) + ")";
            if(W->cell[i].t && (void*)p >= W->cell[i].mem && (void*)p < W->cell[i].mem + val::MAXVAL) return std::string("a shared const ") + W->cell[i].t->name;
        }
        if(p >= (char*)&W->d20 && p < (char*)&W->map) return "a shared const digest";
        if((unsigned char*)p >= W->src.data() && (unsigned char*)p < W->src.data() + W->src.size()) return "a shared source buffer";
        if(p >= vt::arena_lo && p < vt::arena_hi) return "allocated memory";
        return "static storage";
    };
    sched::Report R = sched::together(S, f, solo, where);
    if(R.switches > (std::uint64_t)nt - 1) S.fault("preemption", R.switches - (nt - 1));
    S.oracle(nt);
    if(R.shared) S.probe("granules_used_by_several_threads", R.shared);
    if(R.sync) S.probe("atomic_or_lock_operations", R.sync);
    S.cov(fav ? favourite : 99, (std::uint64_t)nt * 64 + std::min<std::uint64_t>(R.switches, 63), progs[0]->ops[0].k, progs[0]->ops.size() > 1 ? progs[0]->ops[1].k : 0);
    S.nontrivial();
    if(R.race) S.fail("data-race", "%s", R.text.c_str());
    for(int i = 0; i < nt; ++i)
        if(got[i] != expect[i]) S.fail("result-differs", "thread %d of %d obtained other results than when it ran alone: %s instead of %s", i, nt, hex(got[i]).substr(0, 300).c_str(), hex(expect[i]).substr(0, 300).c_str());
}
}

static void threads(Sim& S) { algs::table(ref::FNV32); val::types(); val::flavor(0); val::direct_alg(0); val::direct_flavor(0); isolated(S, [&]() { run(S); }); }
static sim::Register reg_threads("threads", threads, 60);

int main(int argc, char** argv) { return sim::main_(argc, argv, "C04", BUILD_NAME); }
