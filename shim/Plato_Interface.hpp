// Stand-ins for the parts of the Plato Engine the application side uses: exceptions, shared data, the application interface
// and a parser that hands out input trees registered under a file name.
#pragma once
#include <map>
#include <string>
#include <vector>
#include <mpi.h>
#include "Plato_InputData.hpp"
namespace Plato
{
class LogicException : public std::exception { std::string m_; public: explicit LogicException(std::string m) : m_(std::move(m)) {} const std::string& message() const { return m_; } const char* what() const noexcept override { return m_.c_str(); } };
namespace data { enum layout_t { UNDEFINED, SCALAR, SCALAR_PARAMETER, SCALAR_FIELD, VECTOR_FIELD, TENSOR_FIELD, ELEMENT_FIELD, SCALAR_SPARSE, MULTI_VECTOR }; }
class SharedData { public: virtual ~SharedData() {} virtual int size() const = 0; virtual std::string myName() const = 0; virtual std::string myContext() const = 0; virtual data::layout_t myLayout() const = 0; virtual void setData(const std::vector<double>&) = 0; virtual void getData(std::vector<double>&) const = 0; };
class Application { public: virtual ~Application() {} virtual void initialize() = 0; virtual void compute(const std::string&) = 0; virtual void finalize() = 0; virtual void importData(const std::string&, const SharedData&) = 0; virtual void exportData(const std::string&, SharedData&) = 0; virtual void exportDataMap(const data::layout_t&, std::vector<int>&) = 0; };
inline std::map<std::string, InputData>& app_files() { static std::map<std::string, InputData> m; return m; }
class Parser { public: virtual ~Parser() {} virtual InputData parseFile(const std::string& f) = 0; };
class PugiParser : public Parser { public: InputData parseFile(const std::string& f) override { auto i = app_files().find(f); if (i == app_files().end()) throw ParsingException("no file " + f); return i->second; } };
}
