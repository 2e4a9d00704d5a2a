// Reads the programs that the specification generated (key=value lines).
#pragma once
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
namespace vf {
using Rec = std::map<std::string, std::string>;
inline std::vector<Rec> readprog(const char *path)
{
    std::vector<Rec> v;
    std::ifstream f(path);
    std::string line;
    while (std::getline(f, line)) {
        Rec r;
        std::istringstream is(line);
        std::string kv;
        while (is >> kv) {
            const auto e = kv.find('=');
            r[kv.substr(0, e)] = kv.substr(e + 1);
        }
        if (!r.empty()) v.push_back(r);
    }
    return v;
}
inline int num(const Rec &r, const char *k) { return std::stoi(r.at(k)); }
inline std::vector<int> nums(const Rec &r, const char *k)
{
    std::vector<int> v;
    std::istringstream is(r.at(k));
    std::string s;
    while (std::getline(is, s, ',')) v.push_back(std::stoi(s));
    return v;
}
}  // namespace vf
