#include "c13.hpp"
SVC("list<double>", bmap, hash, sha2_512, SHA512, std::list<double>)
SVC("deque<string>", fmap, hash, siphash_32, SIP32, std::deque<std::string>)
SVC("set<int>", smap, hash, hmac_sha2_256, HMAC_SHA256, std::set<int>)
SVC("map<string,float>", nmap, hash, xxhash_32, XXH32, std::map<std::string, float>)
