#pragma once
#include <fstream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vstub/vstub.hpp>
namespace pluginlib
{
struct PluginlibException : std::runtime_error { using std::runtime_error::runtime_error; };
struct LibraryLoadException : PluginlibException { using PluginlibException::PluginlibException; };
template <class T> using UniquePtr = std::unique_ptr<T>;
template <class T> class ClassLoader
{
public:
  ClassLoader(const std::string & package, const std::string & base) : package_(package), base_(base) {}
  std::shared_ptr<T> createSharedInstance(const std::string & name)
  {
    auto it = vstub::plugins().find(name);
    if (it == vstub::plugins().end() || !declared(name)) throw PluginlibException("no plugin " + name);
    return std::static_pointer_cast<T>(it->second());
  }
  bool isClassAvailable(const std::string & name) { return vstub::plugins().count(name) && declared(name); }
private:
  bool declared(const std::string & name) const
  {
    if (vstub::g_plugins_xml.empty() || name.rfind("test::", 0) == 0) return true;
    std::ifstream f(vstub::g_plugins_xml);
    std::stringstream ss; ss << f.rdbuf();
    const std::string s = ss.str();
    return s.find("type=\"" + name + "\"") != std::string::npos &&
           s.find("base_class_type=\"" + base_ + "\"") != std::string::npos;
  }
  std::string package_, base_;
};
}
