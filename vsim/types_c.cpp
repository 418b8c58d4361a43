// classes: described, with bases, private members, padding, and classes with tag_invoke
#include "values.hpp"
#include <boost/describe.hpp>

namespace app
{
struct Empty {};
BOOST_DESCRIBE_STRUCT(Empty, (), ())

struct Padded { char c; int i; short s; double d; bool b; };
BOOST_DESCRIBE_STRUCT(Padded, (), (c, i, s, d, b))

struct Arrays { char name[6]; int grid[2][2]; float f[2]; };
BOOST_DESCRIBE_STRUCT(Arrays, (), (name, grid, f))

struct Base1 { int x; };
BOOST_DESCRIBE_STRUCT(Base1, (), (x))
struct Base2 { std::string y; };
BOOST_DESCRIBE_STRUCT(Base2, (), (y))
struct Derived: Base1, private Base2, Empty
{
    std::vector<int> z; 
    std::string& yref() { return y; }
    BOOST_DESCRIBE_CLASS(Derived, (Base1, Base2, Empty), (z), (), ())
};
struct OnlyBase: Base1 {};
BOOST_DESCRIBE_STRUCT(OnlyBase, (Base1), ())
struct EmptyDerived: Empty {};
BOOST_DESCRIBE_STRUCT(EmptyDerived, (Empty), ())

class Secret
{
public:
    int pub = 0;
    double& a() { return priv_; }
    std::string& b() { return prot_; }
protected:
    std::string prot_;
private:
    double priv_ = 0;
    BOOST_DESCRIBE_CLASS(Secret, (), (pub), (prot_), (priv_))
};

struct Nested { Padded p; std::vector<Padded> v; Arrays a; std::map<int, Padded> m; };
BOOST_DESCRIBE_STRUCT(Nested, (), (p, v, a, m))

// as in the documentation
class Tagged
{
public:
    std::string s_; int n_ = 0; std::vector<double> v_;
    template<class Provider, class Hash, class Flavor>
    friend void tag_invoke(Provider const&, Hash& h, Flavor const& f, Tagged const& v)
    {
        boost::hash2::hash_append(h, f, v.s_);
        boost::hash2::hash_append(h, f, v.n_);
        boost::hash2::hash_append_range(h, f, v.v_.begin(), v.v_.end());
        boost::hash2::hash_append_size(h, f, v.v_.size());
    }
};

// a hand-written string with an embedded capacity and junk behind the end
class Inline
{
public:
    std::uint8_t size_ = 0; char data_[15];
    template<class Hash, class Flavor>
    friend void tag_invoke(boost::hash2::hash_append_tag const&, Hash& h, Flavor const& f, Inline const& v)
    {
        boost::hash2::hash_append_range(h, f, v.data_ + 0, v.data_ + v.size_);
        boost::hash2::hash_append_size(h, f, v.size_);
    }
};

// trivially equality comparable by the user's word: hashed as one block in native order
struct Pixel { std::uint16_t r, g; std::uint32_t b; };
BOOST_DESCRIBE_STRUCT(Pixel, (), (r, g, b))
// same, and independent of the byte order
struct Rgb { unsigned char r, g, b; };
BOOST_DESCRIBE_STRUCT(Rgb, (), (r, g, b))

// a range of constant size whose elements are not contiguous
template<class T, std::size_t N> struct Nodes
{
    std::list<T> l = std::list<T>(N);
    using value_type = T; using iterator = typename std::list<T>::const_iterator; using const_iterator = iterator;
    iterator begin() const { return l.begin(); } iterator end() const { return l.end(); } std::size_t size() const { return N; }
    T& operator[](std::size_t i) { return *std::next(l.begin(), (long)i); }
    T const& operator[](std::size_t i) const { return *std::next(l.begin(), (long)i); }
};
// a range of constant size with random access, but not contiguous
template<class T, std::size_t N> struct Ring
{
    std::deque<T> l = std::deque<T>(N);
    using value_type = T; using iterator = typename std::deque<T>::const_iterator; using const_iterator = iterator;
    iterator begin() const { return l.begin(); } iterator end() const { return l.end(); } std::size_t size() const { return N; }
    T& operator[](std::size_t i) { return l[i]; } T const& operator[](std::size_t i) const { return l[i]; }
};
// a range known only by its iterators
template<class T> struct Chain
{
    std::forward_list<T> l;
    using value_type = T; using iterator = typename std::forward_list<T>::const_iterator; using const_iterator = iterator;
    iterator begin() const { return l.begin(); } iterator end() const { return l.end(); }
};

// described class templates, static members and member functions, inherited and overridden names
template<class T, class U> struct Couple { T first_; U second_; BOOST_DESCRIBE_CLASS(Couple, (), (first_, second_), (), ()) };
struct Counted
{
    static int instances; int id = 0; std::string tag; int twice() const { return 2 * id; }
    BOOST_DESCRIBE_CLASS(Counted, (), (instances, id, twice, tag), (), ())
};
int Counted::instances = 7;
struct Shadow: Base1 { short x; };               // hides the member of the base
BOOST_DESCRIBE_STRUCT(Shadow, (Base1), (x))
enum Colour: short { red, green };
struct Hollow { Colour kind; std::tuple<> nothing; std::array<int, 0> none; std::nullptr_t null; Nodes<int, 0> nodes; };
BOOST_DESCRIBE_STRUCT(Hollow, (), (kind, nothing, none, null, nodes))

// a contiguous view without constant size
template<class T> struct View
{
    T const* p_ = nullptr; std::size_t n_ = 0; std::vector<T> own_;
    using value_type = T; using iterator = T const*; using const_iterator = T const*;
    T const* begin() const { return p_; } T const* end() const { return p_ + n_; }
    T const* data() const { return p_; } std::size_t size() const { return n_; }
};
}

template<class T, std::size_t N> struct boost::hash2::has_constant_size<app::Nodes<T, N>>: std::true_type {};
template<class T, std::size_t N> struct boost::hash2::has_constant_size<app::Ring<T, N>>: std::true_type {};
template<> struct boost::hash2::is_trivially_equality_comparable<app::Pixel>: std::true_type {};
template<> struct boost::hash2::is_trivially_equality_comparable<app::Rgb>: std::true_type {};
template<> struct boost::hash2::is_endian_independent<app::Rgb>: std::true_type {};

VAL_STRUCT(app::Empty)
VAL_STRUCT(app::Padded, v.c, v.i, v.s, v.d, v.b)
VAL_STRUCT(app::Arrays, v.name, v.grid, v.f)
VAL_STRUCT(app::Base1, v.x)
VAL_STRUCT(app::Base2, v.y)
VAL_STRUCT(app::OnlyBase, static_cast<app::Base1&>(v))
VAL_STRUCT(app::EmptyDerived, static_cast<app::Empty&>(v))
VAL_STRUCT(app::Nested, v.p, v.v, v.a, v.m)
VAL_STRUCT(app::Pixel, v.r, v.g, v.b)
VAL_STRUCT(app::Rgb, v.r, v.g, v.b)
VAL_STRUCT(app::Counted, v.id, v.tag)
VAL_STRUCT(app::Shadow, static_cast<app::Base1&>(v), v.x)
VAL_STRUCT(app::Hollow, v.kind, v.nothing, v.none, v.null, v.nodes)
namespace val
{
template<class T, std::size_t N> struct Codec<app::Nodes<T, N>>: ArrayCodec<app::Nodes<T, N>, T, N> {};
template<class T, std::size_t N> struct Codec<app::Ring<T, N>>: ArrayCodec<app::Ring<T, N>, T, N> {};
template<class T, class U> struct Codec<app::Couple<T, U>>: TiedCodec<app::Couple<T, U>, Codec<app::Couple<T, U>>> { static auto tie(app::Couple<T, U>& v) { return std::tie(v.first_, v.second_); } };
template<class T> struct Codec<app::Chain<T>>
{
    typedef Codec<std::forward_list<T>> L;
    static void gen(Sim& S, app::Chain<T>& v) { L::gen(S, v.l); }
    static void rebuild(Sim& S, app::Chain<T> const& s, app::Chain<T>& d) { L::rebuild(S, s.l, d.l); }
    static bool mutate(Sim& S, app::Chain<T>& v) { return L::mutate(S, v.l); }
    static Value model(app::Chain<T> const& v) { return L::model(v.l); }
};
template<> struct Codec<app::Derived>: TiedCodec<app::Derived, Codec<app::Derived>>
{
    static auto tie(app::Derived& v) { return std::tie(static_cast<app::Base1&>(v), v.yref(), static_cast<app::Empty&>(v), v.z); }
    static Value model(app::Derived const& v) { return TiedCodec<app::Derived, Codec<app::Derived>>::model(v); }
};
template<> struct Codec<app::Secret>: TiedCodec<app::Secret, Codec<app::Secret>> { static auto tie(app::Secret& v) { return std::tie(v.pub, v.b(), v.a()); } };
template<> struct Codec<app::Tagged>: TiedCodec<app::Tagged, Codec<app::Tagged>> { static auto tie(app::Tagged& v) { return std::tie(v.s_, v.n_, v.v_); } };
template<> struct Codec<app::Inline>
{
    static void gen(Sim& S, app::Inline& v) { v.size_ = (std::uint8_t)S.choose(16); S.fill(v.data_, 15); }
    static void rebuild(Sim& S, app::Inline const& s, app::Inline& d) { S.fill(d.data_, 15); d.size_ = s.size_; std::memcpy(d.data_, s.data_, s.size_); }
    static bool mutate(Sim& S, app::Inline& v) { if(v.size_ && S.choose(2)) v.data_[S.choose(v.size_)] ^= (char)(1 << S.choose(8)); else if(v.size_ < 15 && S.choose(2)) v.data_[v.size_++] = 0; else if(v.size_) --v.size_; return true; }
    static Value model(app::Inline const& v) { Value r = Value::group(Value::SEQ); for(int i = 0; i < v.size_; ++i) r.kids.push_back(Value::integer(1, (unsigned char)v.data_[i])); return r; }
};
template<class T> struct Codec<app::View<T>>
{
    static void gen(Sim& S, app::View<T>& v) { Codec<std::vector<T>>::gen(S, v.own_); v.p_ = v.own_.data(); v.n_ = v.own_.size(); cut(S, v); }
    static void cut(Sim& S, app::View<T>& v) { if(v.n_ && S.choose(2)) { ++v.p_; --v.n_; } if(v.n_ && S.choose(2)) --v.n_; }
    static void rebuild(Sim& S, app::View<T> const& s, app::View<T>& d)
    {
        // the same elements somewhere in the middle of another buffer
        std::size_t pre = S.choose(3), post = S.choose(3);
        d.own_.clear();
        for(std::size_t i = 0; i < pre; ++i) d.own_.push_back(fresh<T>(S));
        for(std::size_t i = 0; i < s.n_; ++i) d.own_.push_back(twin<T>(S, s.p_[i]));
        for(std::size_t i = 0; i < post; ++i) d.own_.push_back(fresh<T>(S));
        d.p_ = d.own_.data() + pre; d.n_ = s.n_;
    }
    static bool mutate(Sim& S, app::View<T>& v)
    {
        std::size_t off = (std::size_t)(v.p_ - v.own_.data());
        if(v.n_ && S.choose(2)) Codec<T>::mutate(S, v.own_[off + S.choose(v.n_)]); else if(v.n_ && S.choose(2)) --v.n_; else if(off + v.n_ < v.own_.size()) ++v.n_;
        return true;
    }
    static Value model(app::View<T> const& v) { Value r = Value::group(Value::SEQ); for(std::size_t i = 0; i < v.n_; ++i) r.kids.push_back(Codec<T>::model(v.p_[i])); return r; }
};
}

VAL_TYPE(app::Empty)
VAL_TYPE(app::Padded)
VAL_TYPE(app::Arrays)
VAL_TYPE(app::Derived)
VAL_TYPE(app::OnlyBase)
VAL_TYPE(app::EmptyDerived)
VAL_TYPE(app::Secret)
VAL_TYPE(app::Nested)
VAL_TYPE(app::Tagged)
VAL_TYPE(app::Inline)
VAL_TYPE(app::Pixel)
VAL_TYPE(app::Rgb)
VAL_TYPE(app::View<int>)
VAL_TYPE(app::View<char>)
VAL_TYPE(app::View<float>)
VAL_TYPE(std::vector<app::Padded>)
VAL_TYPE(std::vector<app::Pixel>)
VAL_TYPE(std::vector<app::Rgb>)
VAL_TYPE(std::array<app::Pixel, 2>)
VAL_TYPE(app::Pixel[2])
VAL_TYPE(std::list<app::Pixel>)
VAL_TYPE(std::vector<app::Empty>)
VAL_TYPE(std::pair<app::Empty, app::Empty>)
VAL_TYPE(std::vector<app::Tagged>)
VAL_TYPE(std::map<int, app::Derived>)
VAL_TYPE(val::uset<app::Padded>)
VAL_TYPE(val::umap<std::string, app::Nested>)
VAL_TYPE(std::tuple<app::Inline, app::Inline, app::Secret>)
VAL_TYPE(std::vector<app::Inline>)

VAL_TYPE(app::Nodes<int, 0>)
VAL_TYPE(app::Nodes<unsigned char, 3>)
VAL_TYPE(app::Ring<std::string, 2>)
VAL_TYPE(app::Ring<unsigned char, 5>)
VAL_TYPE(app::Ring<double, 0>)
VAL_TYPE(app::Chain<int>)
VAL_TYPE(app::Chain<app::Chain<char>>)
VAL_TYPE(std::vector<app::Nodes<int, 0>>)
VAL_TYPE(std::pair<app::Nodes<int, 2>, app::Ring<int, 0>>)
VAL_TYPE(app::Couple<int, std::vector<float>>)
VAL_TYPE(app::Couple<app::Couple<char, char>, app::Empty>)
VAL_TYPE(app::Counted)
VAL_TYPE(app::Shadow)
VAL_TYPE(app::Hollow)
VAL_TYPE(std::vector<app::Hollow>)
VAL_TYPE(val::uset<app::Couple<float, short>>)
