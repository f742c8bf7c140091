// A stand-in for the Plato Engine's tree of named input values.
#pragma once
#include <algorithm>
#include <cstdlib>
#include <exception>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
namespace Plato
{
class ParsingException : public std::exception { std::string m_; public: explicit ParsingException(std::string m) : m_(std::move(m)) {} const std::string& message() const { return m_; } const char* what() const noexcept override { return m_.c_str(); } };
class InputData
{
    template <typename T> struct Tag {};
    std::string name_; std::vector<std::pair<std::string, std::string>> v_; std::vector<std::pair<std::string, InputData>> c_;
    std::vector<InputData> all(const std::string& n, Tag<InputData>) const { std::vector<InputData> r; for (auto& x : c_) if (x.first == n) r.push_back(x.second); return r; }
    std::vector<std::string> all(const std::string& n, Tag<std::string>) const { std::vector<std::string> r; for (auto& x : v_) if (x.first == n) r.push_back(x.second); return r; }
public:
    InputData(std::string n = "Input Data") : name_(std::move(n)) {}
    const std::string& name() const { return name_; }
    void add(const std::string& n, const std::string& v) { v_.emplace_back(n, v); }
    void add(const std::string& n, const InputData& d) { c_.emplace_back(n, d); }
    template <typename T> std::vector<T> getByName(const std::string& n) const { return all(n, Tag<T>()); }
    template <typename T> T get(const std::string& n) const { auto r = getByName<T>(n); if (r.empty()) throw ParsingException("no field named " + n); return r[0]; }
    template <typename T> T get_add(const std::string& n) { auto r = getByName<T>(n); return r.empty() ? T() : r[0]; }
    template <typename T> std::size_t size(const std::string& n) const { return getByName<T>(n).size(); }
    bool empty() const { return v_.empty() && c_.empty(); }
};
namespace Get
{
inline std::string String(const InputData& d, const std::string& n, const std::string& dflt, bool up) { auto r = d.getByName<std::string>(n); std::string s = r.empty() ? dflt : r[0]; if (up) std::transform(s.begin(), s.end(), s.begin(), ::toupper); return s; }
inline std::string String(const InputData& d, const std::string& n, bool up) { return String(d, n, std::string(), up); }
inline std::string String(const InputData& d, const std::string& n, const std::string& dflt) { return String(d, n, dflt, false); }
inline std::string String(const InputData& d, const std::string& n, const char* dflt) { return String(d, n, std::string(dflt), false); }
inline std::string String(const InputData& d, const std::string& n) { return String(d, n, std::string(), false); }
inline double Double(const InputData& d, const std::string& n, double dflt = 0.0) { auto r = d.getByName<std::string>(n); return r.empty() ? dflt : std::atof(r[0].c_str()); }
inline int Int(const InputData& d, const std::string& n, int dflt = 0) { auto r = d.getByName<std::string>(n); return r.empty() ? dflt : std::atoi(r[0].c_str()); }
inline bool Bool(const InputData& d, const std::string& n, bool dflt = false) { auto r = d.getByName<std::string>(n); if (r.empty()) return dflt; std::string s = r[0]; std::transform(s.begin(), s.end(), s.begin(), ::tolower); return s == "true" || s == "1"; }
inline bool exists(const InputData& d, const std::string& n) { return !d.getByName<std::string>(n).empty(); }
}
}
