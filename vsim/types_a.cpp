// scalars, arrays, tuples and sequences
#include "values.hpp"
namespace
{
enum Plain8: unsigned char { p0, p1 };
enum class E16: std::int16_t { a, b };
enum class E32 { a };
enum class E64: std::uint64_t { a };
enum class EBool: bool { no, yes };
}
VAL_TYPE(bool)
VAL_TYPE(char)
VAL_TYPE(signed char)
VAL_TYPE(unsigned char)
VAL_TYPE(short)
VAL_TYPE(unsigned)
VAL_TYPE(long)
VAL_TYPE(unsigned long long)
VAL_TYPE(wchar_t)
VAL_TYPE(char16_t)
VAL_TYPE(char32_t)
VAL_TYPE(Plain8)
VAL_TYPE(E16)
VAL_TYPE(E32)
VAL_TYPE(E64)
VAL_TYPE(EBool)
VAL_TYPE(float)
VAL_TYPE(double)
VAL_TYPE(int*)
VAL_TYPE(void const*)
VAL_TYPE(std::nullptr_t)
VAL_TYPE(int[3])
VAL_TYPE(unsigned char[5])
VAL_TYPE(double[2])
VAL_TYPE(short[2][3])
VAL_TYPE(std::vector<int>[2])
VAL_TYPE(std::array<int, 4>)
VAL_TYPE(std::array<unsigned char, 7>)
VAL_TYPE(std::array<int, 0>)
VAL_TYPE(std::array<float, 3>)
VAL_TYPE(std::array<bool, 3>)
VAL_TYPE(std::array<std::vector<short>, 2>)
VAL_TYPE(boost::array<int, 4>)
VAL_TYPE(boost::array<std::string, 2>)
VAL_TYPE(boost::array<int, 0>)
VAL_TYPE(boost::hash2::digest<16>)
VAL_TYPE(std::vector<boost::hash2::digest<20>>)
VAL_TYPE(std::pair<int, char>)
VAL_TYPE(std::pair<std::vector<int>, std::vector<int>>)
VAL_TYPE(std::pair<std::string, std::string>)
VAL_TYPE(std::tuple<>)
VAL_TYPE(std::tuple<char, int, double>)
VAL_TYPE(std::tuple<std::tuple<>, std::vector<std::tuple<>>, bool>)
VAL_TYPE(std::tuple<std::string, std::vector<char>, std::string>)
VAL_TYPE(std::vector<bool>)
VAL_TYPE(std::vector<char>)
VAL_TYPE(std::vector<unsigned char>)
VAL_TYPE(std::vector<int>)
VAL_TYPE(std::vector<E16>)
VAL_TYPE(std::vector<int*>)
VAL_TYPE(std::vector<double>)
VAL_TYPE(std::vector<std::vector<int>>)
VAL_TYPE(std::vector<std::vector<unsigned char>>)
VAL_TYPE(std::vector<std::vector<std::vector<char>>>)
VAL_TYPE(std::vector<std::string>)
VAL_TYPE(std::vector<std::array<int, 2>>)
VAL_TYPE(std::vector<std::array<char, 0>>)
VAL_TYPE(std::vector<std::pair<char, int>>)
VAL_TYPE(std::string)
VAL_TYPE(std::wstring)
VAL_TYPE(std::u16string)
VAL_TYPE(std::u32string)
VAL_TYPE(std::deque<int>)
VAL_TYPE(std::deque<std::string>)
VAL_TYPE(std::list<int>)
VAL_TYPE(std::list<std::list<char>>)
VAL_TYPE(std::forward_list<int>)
VAL_TYPE(std::forward_list<std::string>)
VAL_TYPE(boost::container::small_vector<int, 4>)
VAL_TYPE(boost::container::stable_vector<long>)
VAL_TYPE(boost::container::deque<float>)

VAL_TYPE(long long)
VAL_TYPE(unsigned short)
VAL_TYPE(std::tuple<int>)
VAL_TYPE(std::pair<int const, unsigned short>)
VAL_TYPE(std::array<std::array<short, 2>, 3>)
VAL_TYPE(std::array<std::pair<char, int>, 2>)
VAL_TYPE(boost::array<boost::hash2::digest<4>, 2>)
VAL_TYPE(char[4])
VAL_TYPE(int*[2])
VAL_TYPE(std::vector<std::nullptr_t>)
VAL_TYPE(std::vector<wchar_t>)
VAL_TYPE(std::list<bool>)
VAL_TYPE(std::deque<unsigned char>)
VAL_TYPE(std::deque<std::vector<bool>>)
VAL_TYPE(std::vector<std::tuple<>>)
VAL_TYPE(std::map<std::vector<bool>, std::tuple<short, char>>)
