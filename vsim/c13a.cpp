#include "c13.hpp"
namespace { enum class Colour { red, green, blue }; enum Small: unsigned char { s0 }; }
SVC("string", fmap, hash, siphash_64, SIP64, std::string)
SVC("string/2", smap, rehash_each, fnv1a_32, FNV32, std::string)
SVC("string/3", bmap, hash, md5_128, MD5, std::string)
SVC("wstring", nmap, hash, xxhash_64, XXH64, std::u16string)
SVC("int", smap, hash, xxhash_32, XXH32, int)
SVC("int/2", fmap, rehash_each, fnv1a_64, FNV64, std::int64_t)
SVC("enum", bmap, hash, siphash_32, SIP32, Colour)
SVC("enum/2", fmap, rehash_each, xxhash_32, XXH32, Small)
SVC("float", smap, hash, siphash_64, SIP64, float)
SVC("double", fmap, hash, xxhash_64, XXH64, double)
SVC("double/2", nmap, rehash_each, sha2_256, SHA256, double)
SVC("bool", smap, rehash_each, siphash_32, SIP32, bool)
SVC("pointer", fmap, hash, hmac_md5_128, HMAC_MD5, int*)
SVC("chars", bmap, hash, ripemd_160, RMD160, char)
