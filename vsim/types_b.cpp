// associative containers
#include "values.hpp"
VAL_TYPE(std::set<int>)
VAL_TYPE(std::set<float>)
VAL_TYPE(std::set<std::string>)
VAL_TYPE(std::multiset<short>)
VAL_TYPE(std::map<int, std::string>)
VAL_TYPE(std::map<std::string, std::vector<int>>)
VAL_TYPE(std::multimap<int, int>)
VAL_TYPE(std::map<double, std::map<char, bool>>)
VAL_TYPE(std::set<std::set<int>>)
VAL_TYPE(boost::container::flat_set<int>)
VAL_TYPE(boost::container::flat_map<std::string, int>)
VAL_TYPE(val::uset<int>)
VAL_TYPE(val::uset<std::string>)
VAL_TYPE(val::uset<float>)
VAL_TYPE(val::umset<unsigned char>)
VAL_TYPE(val::umset<std::string>)
VAL_TYPE(val::umap<int, int>)
VAL_TYPE(val::umap<double, std::vector<int>>)
VAL_TYPE(val::umap<std::string, val::uset<int>>)
VAL_TYPE(val::ummap<char, int>)
VAL_TYPE(val::buset<std::string>)
VAL_TYPE(val::bumap<int, std::string>)
VAL_TYPE(val::bfset<int>)
VAL_TYPE(val::bfmap<std::string, double>)
VAL_TYPE(std::vector<val::uset<int>>)
VAL_TYPE(std::pair<val::uset<int>, val::uset<int>>)
VAL_TYPE(std::tuple<val::umap<int, int>, std::map<int, int>, val::bfset<char>>)
VAL_TYPE(val::uset<std::vector<int>>)
VAL_TYPE(std::map<int, val::umset<short>>)
VAL_TYPE(std::array<val::uset<char>, 2>)
