// C08: a crash image of a finished hash object holds no plaintext.
// One history is executed on K machines whose secrets differ; a byte of a crash image is plaintext when it
// equals the same byte of the secret on every machine.
#include "core.hpp"
#include "algs.hpp"
#include <memory>

using sim::Sim; using sim::Bytes; using algs::Obj;

namespace
{
enum { K = 9 };
struct Secret { Bytes b[K]; char kind; std::size_t since; };    // kind: 's' seed, 'm' message; since: bytes of the current message before it

bool streaming_covered(ref::Alg a) { return ref::crypto(a) || ref::is_hmac(a) || a == ref::SIP32 || a == ref::SIP64; }

// finds byte i of the secrets at some offset of every machine's image
bool find(std::vector<Bytes> const& img, Secret const& s, std::size_t from, std::size_t to, std::size_t& i, std::size_t& off)
{
    std::size_t n = img[0].size();
    // offsets by value on machine 0
    static thread_local std::vector<std::vector<std::uint16_t>> at(256);
    for(auto& v: at) v.clear();
    for(std::size_t o = 0; o < n; ++o) at[img[0][o]].push_back((std::uint16_t)o);
    for(i = from; i < to; ++i)
        for(std::uint16_t o: at[s.b[0][i]])
        {
            int k = 1;
            while(k < K && img[(std::size_t)k][o] == s.b[k][i]) ++k;
            if(k == K) { off = o; return true; }
        }
    return false;
}
}

SIM_SCENARIO(residue)
{
    ref::Alg a = (ref::Alg)S.strat(ref::NDOC);
    std::size_t const blk = ref::block_size(a);
    std::vector<std::unique_ptr<Obj>> m;                        // the K machines
    unsigned char d = S.dirt();
    for(int k = 0; k < K; ++k) { m.emplace_back(new Obj); m.back()->dirty(d); }
    std::vector<Secret> secrets;
    std::uint64_t base = S.u64();                               // every machine's secrets differ, in every run
    auto secret = [&](std::size_t n, char kind) { secrets.emplace_back(); Secret& s = secrets.back(); for(int k = 0; k < K; ++k) { s.b[k].resize(n); for(std::size_t i = 0; i < n; ++i) s.b[k][i] = (unsigned char)(sim::mix64(base + 0x10001 * (std::uint64_t)k + i * 0x9E3779B97F4A7C15ull + secrets.size() * 0xD1B54A32D192ED03ull) >> 24); } s.kind = kind; s.since = 0; return secrets.size() - 1; };

    int how = (int)S.choose(4);
    std::size_t kl = 0;
    if(how == 3) { std::uint64_t sd = S.edgy64(); for(auto& o: m) o->seed(a, sd); }
    else if(how && !(kl = S.length(std::max<std::size_t>(8, blk), 300), kl == 0))
    {
        std::size_t i = secret(kl, 's');
        for(int k = 0; k < K; ++k) { Bytes c(secrets[i].b[k]); m[(std::size_t)k]->bytes(a, c.data(), c.size()); }
        bool direct = (a == ref::SIP32 && kl == 8) || (a == ref::SIP64 && kl == 16);     // documented: used as the key itself
        if(direct) secrets.clear();
    }
    else for(auto& o: m) o->def(a);
    S.ev("residue %s construct=%d seedlen=%zu", ref::name(a), how, kl);

    std::size_t cur = 0;                    // length of the current message
    bool finished = true, any = false;
    auto crash = [&](char const* when)
    {
        // the machines lose power here; what does the memory of the object hold?
        std::vector<Bytes> img;
        for(auto& o: m) img.push_back(Bytes(o->mem, o->mem + o->vt().size));
        S.fault("crash_image_taken");
        for(std::size_t x = 0; x < secrets.size(); ++x)
        {
            Secret const& s = secrets[x];
            std::size_t n = s.b[0].size(), from = 0, to = n, i, off;
            bool current = s.kind == 'm' && s.since != (std::size_t)-1;      // part of a message that is still being streamed
            if(current)
            {
                // bytes of the last, incomplete block may be there
                std::size_t pend = cur % blk, start = cur - pend;
                if(!streaming_covered(a)) to = 0;
                else to = start > s.since ? std::min(n, start - s.since) : 0;
                if(to < n && find(img, s, to, n, i, off)) S.probe("pending_plaintext_seen");
            }
            S.oracle();
            if(find(img, s, from, to, i, off))
            {
                if(s.kind == 's') S.fail("seed-residue", "%s: byte %zu of a seed of %zu bytes stands at offset %zu of the object's memory %s", ref::name(a), i, n, off, when);
                S.fail(current ? "streaming-residue" : "message-residue", "%s: byte %zu of an update of %zu bytes stands at offset %zu of the object's memory %s", ref::name(a), i, n, off, when);
            }
        }
        S.cov(a, cur % blk, (std::uint64_t)finished, std::min<std::size_t>(secrets.size(), 8));
        if(any) S.nontrivial();
    };
    crash("after construction");

    int ops = 1 + (int)S.choose(12);
    for(int j = 0; j < ops; ++j)
    {
        S.step();
        switch(S.choose(8))
        {
        case 0: case 1: case 2: case 3:
            {
                std::size_t n = S.length(blk, S.choose(4) ? 150 : 700);
                if(n == 0) break;
                bool u = S.choose(2);
                std::size_t i = secret(n, 'm'); secrets[i].since = cur;
                for(int k = 0; k < K; ++k) { Bytes c(secrets[i].b[k]); m[(std::size_t)k]->update(c.data(), c.size(), u); }
                cur += n; finished = false; any = true;
                S.ev("update n=%zu", n);
                if(S.choose(3) == 0) crash("during streaming");
                break;
            }
        case 4: case 5: case 6:
            {
                for(auto& o: m) o->result();
                for(auto& s: secrets) if(s.kind == 'm') s.since = (std::size_t)-1;
                cur = 0; finished = true;
                S.ev("result");
                crash("after result()");
                break;
            }
        default:
            // the object migrates: a copy must not carry more than the original
            for(int k = 0; k < K; ++k) { std::unique_ptr<Obj> c(new Obj); c->dirty((unsigned char)(d + j)); c->copy(*m[(std::size_t)k]); m[(std::size_t)k] = std::move(c); }
            S.ev("migrate"); S.probe("copied");
            crash("after a copy");
        }
    }
    for(auto& o: m) o->result();
    for(auto& s: secrets) if(s.kind == 'm') s.since = (std::size_t)-1;
    cur = 0; finished = true;
    S.ev("result");
    crash("after result()");
}

int main(int argc, char** argv) { return sim::main_(argc, argv, "C08", BUILD_NAME); }
