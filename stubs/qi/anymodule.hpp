// Stand-in for libqi's modules: methods are found by name, as a remote caller does.
#ifndef VERIF_STUBS_QI_ANYMODULE_HPP
#define VERIF_STUBS_QI_ANYMODULE_HPP
#include <any>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <type_traits>
namespace qi {
class ModuleBuilder {
 public:
  std::map<std::string, std::any> methods;
  template <class R, class... A>
  void advertiseMethod(const std::string &name, R (*f)(A...), const std::string & = std::string()) {
    if (methods.count(name)) throw std::runtime_error("method advertised twice: " + name);
    methods[name] = std::function<typename std::decay<R>::type(const typename std::decay<A>::type &...)>(f);
  }
  template <class R, class... A>
  R call(const std::string &name, const A &...a) const {
    auto it = methods.find(name);
    if (it == methods.end()) throw std::runtime_error("no method " + name);
    auto f = std::any_cast<std::function<R(const A &...)>>(&it->second);
    if (!f) throw std::runtime_error("method " + name + " has another signature");
    return (*f)(a...);
  }
};
inline std::map<std::string, void (*)(ModuleBuilder *)> &registered_modules() {
  static std::map<std::string, void (*)(ModuleBuilder *)> m;
  return m;
}
}
#define QI_REGISTER_MODULE(name, func) \
  static const bool verif_module_registered_ = ((void)(::qi::registered_modules()[name] = func), true);
#endif
