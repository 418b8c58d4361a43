#include "c13.hpp"
SVC("vector<int>", smap, hash, siphash_64, SIP64, std::vector<int>)
SVC("vector<bytes>", fmap, hash, sha1_160, SHA1, std::vector<std::vector<unsigned char>>)
SVC("pair<string,int>", bmap, rehash_each, siphash_64, SIP64, std::pair<std::string, int>)
SVC("pair<string,string>", fmap, hash, xxhash_64, XXH64, std::pair<std::string, std::string>)
SVC("tuple", nmap, hash, md5_128, MD5, std::tuple<char, double, std::string>)
SVC("array<float>", smap, rehash_each, fnv1a_64, FNV64, std::array<float, 3>)
