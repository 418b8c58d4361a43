// prints reference digests for a fixed set of inputs; compared with hashlib by selftest.py
#include "ref.hpp"
#include <cstdio>
int main()
{
    for(int a = 0; a < ref::NALG; ++a)
        for(unsigned n = 0; n < 600; n += (n < 300 ? 1 : 37))
        {
            ref::Bytes m(n), k(n % 150);
            for(unsigned i = 0; i < n; ++i) m[i] = (unsigned char)(i * 7 + n);
            for(unsigned i = 0; i < k.size(); ++i) k[i] = (unsigned char)(i * 11 + 3 * n);
            ref::Hash h = ref::is_hmac((ref::Alg)a) ? ref::Hash((ref::Alg)a, k.data(), k.size()) : ref::Hash((ref::Alg)a);
            h.update(m);
            ref::Bytes r = h.result();
            std::printf("%s %u ", ref::name((ref::Alg)a), n);
            for(unsigned char c: r) std::printf("%02x", c);
            std::printf("\n");
        }
}
