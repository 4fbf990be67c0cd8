#pragma once
#include <memory>
#include <vstub/vstub.hpp>
namespace vstub
{
template <class D, class B> struct PluginReg
{
  explicit PluginReg(const char * n)
  {
    // the pointer stored is a shared_ptr<B> seen as void
    plugins()[std::string(n)] = []() { return std::static_pointer_cast<void>(std::shared_ptr<B>(new D())); };
  }
};
}
#define VSTUB_CAT2(a, b) a##b
#define VSTUB_CAT(a, b) VSTUB_CAT2(a, b)
#define PLUGINLIB_EXPORT_CLASS(D, B) \
  namespace { ::vstub::PluginReg<D, B> VSTUB_CAT(vstub_plugin_, __COUNTER__)(#D); }
