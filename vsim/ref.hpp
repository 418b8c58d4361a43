// Reference state machines of all algorithms, written from the publications and the documentation,
// sharing no code with the library. A State absorbs bytes and produces results.
#pragma once
#include <cstdint>
#include <cstddef>
#include <memory>
#include <string>
#include <vector>

namespace ref
{
typedef std::vector<unsigned char> Bytes;

enum Alg
{
    FNV32, FNV64, XXH32, XXH64, SIP32, SIP64,
    MD5, SHA1, SHA256, SHA224, SHA512, SHA384, SHA512_224, SHA512_256, RMD160, RMD128,
    HMAC_MD5, HMAC_SHA1, HMAC_SHA256, HMAC_SHA224, HMAC_SHA512, HMAC_SHA384, HMAC_SHA512_224, HMAC_SHA512_256, HMAC_RMD160, HMAC_RMD128,
    MUR32, MUR128, SPOOKY,
    NALG
};

enum { NDOC = MUR32 };             // documented (non-legacy) algorithms are 0..NDOC-1

char const* name(Alg a);
std::size_t digest_size(Alg a);    // bytes; integer results are given little-endian
std::size_t block_size(Alg a);
bool integral(Alg a);              // result_type is an integer
bool crypto(Alg a);                // plain cryptographic digest
bool is_hmac(Alg a);
bool legacy(Alg a);

struct State
{
    virtual ~State() {}
    virtual State* clone() const = 0;
    virtual void update(unsigned char const* p, std::size_t n) = 0;
    virtual Bytes result() = 0;
    virtual std::string save() const = 0;
    virtual void load(std::string const& s) = 0;
};

class Hash
{
    std::unique_ptr<State> s_;
public:
    Hash() {}
    explicit Hash(Alg a);
    Hash(Alg a, std::uint64_t seed);
    Hash(Alg a, unsigned char const* p, std::size_t n);
    Hash(Hash const& r): s_(r.s_ ? r.s_->clone() : nullptr) {}
    Hash& operator=(Hash const& r) { if(this != &r) s_.reset(r.s_ ? r.s_->clone() : nullptr); return *this; }
    Hash(Hash&&) = default;
    Hash& operator=(Hash&&) = default;
    void update(unsigned char const* p, std::size_t n) { if(n) s_->update(p, n); }
    void update(Bytes const& b) { update(b.data(), b.size()); }
    Bytes result() { return s_->result(); }
    std::string save() const { return s_->save(); }
    void load(std::string const& s) { s_->load(s); }
    explicit operator bool() const { return !!s_; }
};

// documented reduction of a result to 64 bits, from the digest bytes
std::uint64_t integral64(Alg a, Bytes const& r);

} // namespace ref
