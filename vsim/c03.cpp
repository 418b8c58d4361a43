// C03: keyed and seeded hashes authenticate messages over a faulty channel.
#include "core.hpp"
#include "algs.hpp"
#include <algorithm>
#include <deque>
#include <map>
#include <memory>

using sim::Sim; using sim::Bytes; using algs::Obj;

namespace
{

struct Key { bool integer; std::uint64_t n; Bytes b; };

void open_real(Obj& o, ref::Alg a, Key const& k)
{
    if(k.integer) { o.seed(a, k.n); return; }
    Bytes copy(k.b); copy.push_back(0x77);           // never a zero byte right behind the key
    o.bytes(a, k.b.empty() ? nullptr : copy.data(), k.b.size());
    std::fill(copy.begin(), copy.end(), 0x99);
}
ref::Hash open_ref(ref::Alg a, Key const& k) { return k.integer ? ref::Hash(a, k.n) : ref::Hash(a, k.b.data(), k.b.size()); }

Key fresh_key(Sim& S, ref::Alg a)
{
    Key k; k.integer = S.choose(4) == 3; k.n = 0;
    if(k.integer) { k.n = S.edgy64(); return k; }
    std::size_t blk = std::max<std::size_t>(8, ref::block_size(a));
    std::size_t n;
    switch(S.choose(6))
    {
    case 0: n = S.choose(5); break;
    case 1: n = 7 + S.choose(11); break;                     // 7..17: direct siphash keys and their neighbours
    case 2: n = blk - 2 + S.choose(5); break;
    case 3: n = blk + S.choose(3 * blk); break;
    case 4: n = ref::digest_size(a) + S.choose(3) - 1; break;
    default: n = S.choose(S.choose(6) == 5 ? 5000 : 200);
    }
    k.b = S.data(n);
    return k;
}

// a key close to k
Key related_key(Sim& S, ref::Alg a, Key const& k, char const*& how)
{
    Key r = k;
    if(k.integer)
    {
        switch(S.choose(3))
        {
        case 0: r.n ^= 1ull << S.choose(64); how = "seed_bit"; break;
        case 1: r.n = (k.n >> 32) | (k.n << 32); how = "seed_halves_swapped"; break;
        default: r.integer = false; for(int i = 0; i < 8; ++i) r.b.push_back((unsigned char)(k.n >> (8 * i))); how = "seed_as_bytes";
        }
        return r;
    }
    switch(S.choose(8))
    {
    case 0: if(!r.b.empty()) { r.b[S.choose(r.b.size())] ^= (unsigned char)(1u << S.choose(8)); } how = "key_bit"; break;
    case 1: if(!r.b.empty()) { r.b.back() ^= (unsigned char)(1u << S.choose(8)); } how = "key_last_byte"; break;
    case 2: if(!r.b.empty()) r.b.pop_back(); how = "key_truncated"; break;
    case 3: r.b.push_back((unsigned char)(1 + S.choose(255))); how = "key_extended"; break;
    case 4: r.b.push_back(0); how = "key_zero_extended"; break;
    case 5: r.b.resize(std::min(r.b.size(), ref::block_size(a))); how = "key_cut_to_block"; break;
    case 6: std::reverse(r.b.begin(), r.b.end()); how = "key_reversed"; break;
    default: { ref::Hash h(ref::is_hmac(a) ? (ref::Alg)(ref::MD5 + (a - ref::HMAC_MD5)) : a); h.update(r.b); r.b = h.result(); how = "key_hashed"; }
    }
    return r;
}

Bytes mac(Sim& S, Obj& o, Bytes const& m)
{
    // the sender and the verifier stream the message in pieces of their own
    std::size_t i = 0; int mode = (int)S.choose(3); std::size_t blk = ref::block_size(o.a);
    while(i < m.size())
    {
        std::size_t k = mode == 0 ? m.size() - i : mode == 1 ? 1 + S.choose(2 * blk) : blk;
        if(k > m.size() - i) k = m.size() - i;
        o.update(m.data() + i, k, S.choose(2)); i += k;
    }
    return o.result();
}
Bytes mac(ref::Hash h, Bytes const& m) { h.update(m); return h.result(); }

struct Packet { std::uint64_t at, seq; int msg, epoch; Bytes body, tag; bool intact; char const* what; };

} // namespace

SIM_SCENARIO(channel)
{
    ref::Alg a = (ref::Alg)S.strat(ref::NDOC);
    if(!ref::is_hmac(a) && S.choose(2)) a = (ref::Alg)(ref::HMAC_MD5 + S.choose(10));
    // key epochs known to both ends; later epochs are often close relatives of the first
    std::vector<Key> keys; std::vector<char const*> how(1, "fresh");
    keys.push_back(fresh_key(S, a));
    int ne = 2 + (int)S.choose(2);
    while((int)keys.size() < ne) { char const* h = "fresh"; if(S.choose(3)) keys.push_back(related_key(S, a, keys[0], h)); else keys.push_back(fresh_key(S, a)); how.push_back(h); }

    // each end prepares one keyed prototype per epoch and copies it for every message
    std::vector<std::unique_ptr<Obj>> snd, rcv; std::vector<ref::Hash> model;
    for(Key const& k: keys)
    {
        snd.emplace_back(new Obj); snd.back()->dirty(S.dirt()); open_real(*snd.back(), a, k);
        rcv.emplace_back(new Obj); rcv.back()->dirty((unsigned char)~S.dirt()); open_real(*rcv.back(), a, k);
        model.push_back(open_ref(a, k));
    }
    int nm = 1 + (int)S.choose(4);
    std::vector<Bytes> msgs; std::vector<int> epoch; std::vector<bool> delivered(nm, false);
    for(int i = 0; i < nm; ++i) { msgs.push_back(S.data(S.length(ref::block_size(a), 300))); epoch.push_back((int)S.choose(ne)); }
    S.ev("channel %s epochs=%d messages=%d keylen=%zu", ref::name(a), ne, nm, keys[0].integer ? (std::size_t)8 : keys[0].b.size());

    std::uint64_t heal = 40 + S.choose(60), seq = 0;
    unsigned rate = 10 + (unsigned)S.choose(60);
    bool blackout = S.choose(5) == 4;            // nothing gets through until the channel heals
    std::vector<Packet> q;
    std::vector<std::uint64_t> resend(nm, 0);
    int left = nm, steps = 0;
    while(left)
    {
        S.step();
        std::uint64_t t = S.now();
        if(++steps > 400) S.fail("progress", "%s: %d authentic messages were still unaccepted %d steps after the channel healed", ref::name(a), left, 400 - (int)heal);
        bool faulty = t < heal;
        for(int i = 0; i < nm; ++i) if(!delivered[i] && resend[i] <= t)
        {
            resend[i] = t + 10;
            Packet p; p.msg = i; p.epoch = epoch[i]; p.body = msgs[i]; p.intact = true; p.what = "none"; p.seq = seq++; p.at = t + 1 + (faulty ? S.choose(12) : 0);
            Obj s; s.dirty(S.dirt()); s.copy(*snd[p.epoch]);
            p.tag = mac(S, s, p.body);
            S.oracle();
            if(p.tag != mac(model[p.epoch], p.body)) S.fail("tag", "%s: the sender's tag is %s, key and message imply %s (key %zu bytes)", ref::name(a), sim::hex(p.tag).c_str(), sim::hex(mac(model[p.epoch], p.body)).c_str(), keys[p.epoch].b.size());
            S.ev("send msg=%d epoch=%d", i, p.epoch);
            if(faulty && blackout) { S.fault("blackout_loss"); continue; }
            if(faulty && S.choose(100) < rate)
            {
                Bytes& b = p.body; std::size_t blk = std::max<std::size_t>(4, ref::block_size(a));
                switch(S.choose(12))
                {
                case 0: p.what = "loss"; S.fault("loss"); continue;
                case 1: { Packet d = p; d.at += 1 + S.choose(30); d.seq = seq++; d.what = "duplicate"; q.push_back(d); S.fault("duplicate"); break; }
                case 2: if(!b.empty()) { b[S.choose(b.size())] ^= (unsigned char)(1u << S.choose(8)); p.what = "bit_flip"; } break;
                case 3: if(!b.empty()) { b.resize(S.choose(b.size())); p.what = "truncation"; } break;
                case 4: { Bytes x = S.data(1 + S.choose(2 * blk)); if(S.choose(2)) std::fill(x.begin(), x.end(), 0); b.insert(b.end(), x.begin(), x.end()); p.what = "extension"; break; }
                case 5: { Bytes x = S.data(1 + S.choose(blk)); b.insert(b.begin(), x.begin(), x.end()); p.what = "prefix"; break; }
                case 6: if(b.size() >= 2 * blk) { std::size_t x = S.choose(b.size() / blk), y = S.choose(b.size() / blk); std::swap_ranges(b.begin() + x * blk, b.begin() + x * blk + blk, b.begin() + y * blk); p.what = "block_swap"; } break;
                case 7: if(b.size() >= 2) { std::size_t x = S.choose(b.size() - 1); std::swap(b[x], b[x + 1]); p.what = "byte_swap"; } break;
                case 8: { int o = (int)S.choose(nm); b = msgs[o]; p.what = "splice"; break; }
                case 9: p.tag[S.choose(p.tag.size())] ^= (unsigned char)(1u << S.choose(8)); p.what = "tag_bit_flip"; break;
                case 10: p.epoch = (int)S.choose(ne); p.what = "wrong_epoch"; break;
                default:
                    // what a length-extension forger would send: the padding of the message followed by a suffix
                    { std::size_t L = b.size(); b.push_back(0x80); while((b.size() + 8) % 64) b.push_back(0); for(int k = 0; k < 8; ++k) b.push_back((unsigned char)((L * 8) >> (8 * (7 - k)))); Bytes x = S.data(S.choose(20)); b.insert(b.end(), x.begin(), x.end()); p.what = "length_extension"; }
                }
                if(p.body != msgs[i] || p.epoch != epoch[i] || std::strcmp(p.what, "tag_bit_flip") == 0) { p.intact = false; S.fault(p.what); }
            }
            q.push_back(p);
        }
        // deliver what is due
        for(std::size_t k = 0; k < q.size();)
        {
            if(q[k].at > t) { ++k; continue; }
            Packet p = q[k]; q.erase(q.begin() + k);
            Obj r; r.dirty((unsigned char)S.choose(256)); r.copy(*rcv[p.epoch]);
            Bytes tag = mac(S, r, p.body);
            bool accept = tag == p.tag, should = mac(model[p.epoch], p.body) == p.tag;
            S.oracle();
            S.ev("deliver msg=%d what=%s verdict=%d", p.msg, p.what, should);
            S.cov(a, std::min<std::size_t>(p.body.size(), 300), sim::fnv(p.what, std::strlen(p.what)));
            if(accept != should) S.fail(accept ? "forgery-accepted" : "authentic-rejected", "%s: packet with fault '%s' (message %zu bytes, key %zu bytes)", ref::name(a), p.what, p.body.size(), keys[p.epoch].b.size());
            // ground truth, independent of the reference: wide tags never confuse different messages under one key
            if(ref::digest_size(a) >= 16 && std::strcmp(p.what, "tag_bit_flip") != 0)
            {
                bool same = p.body == msgs[p.msg] && p.epoch == epoch[p.msg];
                if(same && !accept) S.fail("authentic-rejected", "%s: intact message rejected", ref::name(a));
                if(!same && p.epoch == epoch[p.msg] && accept) S.fail("forgery-accepted", "%s: '%s' accepted", ref::name(a), p.what);
            }
            if(accept && p.body == msgs[p.msg] && p.epoch == epoch[p.msg] && !delivered[p.msg]) { delivered[p.msg] = true; --left; S.probe(t >= heal ? "accepted_after_heal" : "accepted_during_faults"); }
        }
    }
}

// every bit and byte of a key or seed takes effect; distinct keys do not collide unless the published algorithm says so
SIM_SCENARIO(keyspace)
{
    ref::Alg a = (ref::Alg)S.strat(ref::NDOC);
    Key k = fresh_key(S, a);
    Bytes m = S.data(S.length(ref::block_size(a), 200));
    Obj o; o.dirty(S.dirt()); open_real(o, a, k);
    Bytes t0 = mac(S, o, m), w0 = mac(open_ref(a, k), m);
    S.oracle();
    S.ev("keyspace %s integer=%d keylen=%zu msg=%zu", ref::name(a), k.integer, k.b.size(), m.size());
    if(t0 != w0) S.fail("tag", "%s keyed with %zu bytes (integer=%d): got %s, expected %s", ref::name(a), k.b.size(), k.integer, sim::hex(t0).c_str(), sim::hex(w0).c_str());
    int n = 1 + (int)S.choose(5);
    for(int i = 0; i < n; ++i)
    {
        S.step();
        char const* how = "";
        Key k2 = related_key(S, a, k, how);
        Obj p; p.dirty((unsigned char)~S.dirt()); open_real(p, a, k2);
        Bytes t = mac(S, p, m), w = mac(open_ref(a, k2), m);
        S.oracle(); S.fault(how);
        S.ev("related %s keylen=%zu", how, k2.b.size());
        S.cov(9000 + a, k2.integer ? 999 : k2.b.size(), sim::fnv(how, std::strlen(how)));
        if((t == t0) != (w == w0)) S.fail(t == t0 ? "key-ignored" : "key-confused", "%s: keys related by '%s' (%zu bytes)", ref::name(a), how, k2.b.size());
        if(t != w) S.fail("tag", "%s keyed with %zu bytes (%s): got %s, expected %s", ref::name(a), k2.b.size(), how, sim::hex(t).c_str(), sim::hex(w).c_str());
    }
}

int main(int argc, char** argv) { return sim::main_(argc, argv, "C03", BUILD_NAME); }
