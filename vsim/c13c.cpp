#include "c13.hpp"
namespace app
{
struct Empty {}; inline bool operator==(Empty const&, Empty const&) { return true; }
struct Point { char tag; double x; int y; };
BOOST_DESCRIBE_STRUCT(Point, (), (tag, x, y))
inline bool operator==(Point const& a, Point const& b) { return a.tag == b.tag && a.x == b.x && a.y == b.y; }
struct Named: Point { std::string name; };
BOOST_DESCRIBE_STRUCT(Named, (Point), (name))
inline bool operator==(Named const& a, Named const& b) { return static_cast<Point const&>(a) == static_cast<Point const&>(b) && a.name == b.name; }
class Account
{
public:
    short id; std::vector<std::string> owners; std::array<unsigned char, 3> code;
    friend bool operator==(Account const& a, Account const& b) { return a.id == b.id && a.owners == b.owners && a.code == b.code; }
private:
    BOOST_DESCRIBE_CLASS(Account, (), (id, owners, code), (), ())
};
}
template<> struct val::Codec<app::Named>: val::TiedCodec<app::Named, val::Codec<app::Named>> { static auto tie(app::Named& v) { return std::tie(static_cast<app::Point&>(v), v.name); } };
VAL_STRUCT(app::Point, v.tag, v.x, v.y)
VAL_STRUCT(app::Account, v.id, v.owners, v.code)

SVC("unordered_set<int>", smap, hash, siphash_64, SIP64, val::uset<int>)
SVC("unordered_map<string,double>", fmap, hash, fnv1a_32, FNV32, val::umap<std::string, double>)
SVC("flat_set<string>", bmap, rehash_each, sha2_384, SHA384, val::bfset<std::string>)
SVC("Point", fmap, hash, siphash_64, SIP64, app::Point)
SVC("Point/2", smap, rehash_each, xxhash_64, XXH64, app::Point)
SVC("Named", bmap, hash, hmac_sha1_160, HMAC_SHA1, app::Named)
SVC("Account", nmap, hash, ripemd_128, RMD128, app::Account)
SVC("vector<Point>", fmap, hash, fnv1a_32, FNV32, std::vector<app::Point>)
SVC("vector<bool>", smap, hash, sha2_512_224, SHA512_224, std::vector<bool>)
SVC("pair<float,Point>", smap, hash, siphash_32, SIP32, std::pair<float, app::Point>)
SVC("digest", fmap, hash, xxhash_64, XXH64, boost::hash2::digest<20>)
