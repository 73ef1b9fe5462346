// Stand-in for pybind11: what PYBIND11_MODULE defines can be called by name with keyword arguments, as Python would.
#pragma once

#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace pybind11 {

/// A value of Python: text, a number, a truth value or a list of texts.
struct Value {
  enum Kind { None, Text, Int, Bool, Texts } kind = None;
  std::string s;
  long i = 0;
  std::vector<std::string> l;
  Value() = default;
  Value(const char* x) : kind(Text), s(x) {}
  Value(const std::string& x) : kind(Text), s(x) {}
  Value(int x) : kind(Int), i(x) {}
  Value(bool x) : kind(Bool), i(x) {}
  Value(const std::vector<std::string>& x) : kind(Texts), l(x) {}

  void to(std::string& v) const { need(kind == Text), v = s; }
  void to(bool& v) const { need(kind == Bool), v = i != 0; }
  template <typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type>
  void to(T& v) const {
    need(kind == Int || kind == Bool), v = static_cast<T>(i);
  }
  void to(std::vector<std::string>& v) const { need(kind == Texts), v = l; }

 private:
  static void need(bool ok) {
    if (!ok) throw std::invalid_argument("TypeError: incompatible function arguments");
  }
};

struct arg {
  std::string name;
  Value value;
  explicit arg(const char* n) : name(n) {}
  template <typename T>
  arg& operator=(const T& v) {
    value = Value(v);
    return *this;
  }
};

struct module_ {
  std::string text;
  std::map<std::string, std::function<void(const std::map<std::string, Value>&)>> functions;

  std::string& doc() { return text; }

  template <typename R, typename... A, typename... Extra>
  module_& def(const char* name, R (*f)(A...), const Extra&... extra) {
    return add(name, std::function<void(A...)>(f), args(extra...));
  }
  template <typename F, typename... Extra, typename = decltype(&F::operator())>
  module_& def(const char* name, const F& f, const Extra&... extra) {
    return callable(name, f, &F::operator(), args(extra...));
  }
  void call(const std::string& name, const std::map<std::string, Value>& given) { functions.at(name)(given); }

 private:
  template <typename F, typename R, typename C, typename... A>
  module_& callable(const char* name, const F& f, R (C::*)(A...) const, const std::vector<arg>& as) {
    return add(name, std::function<void(A...)>(f), as);
  }
  static void collect(std::vector<arg>&) {}
  template <typename... More>
  static void collect(std::vector<arg>& v, const arg& a, const More&... more) {
    v.push_back(a), collect(v, more...);
  }
  template <typename T, typename... More>
  static void collect(std::vector<arg>& v, const T&, const More&... more) {
    collect(v, more...);
  }
  template <typename... Extra>
  static std::vector<arg> args(const Extra&... extra) {
    std::vector<arg> v;
    collect(v, extra...);
    return v;
  }
  template <typename... A>
  module_& add(const char* name, const std::function<void(A...)>& f, const std::vector<arg>& as) {
    functions[name] = [f, as](const std::map<std::string, Value>& given) {
      for (const auto& g : given) {
        bool known = false;
        for (const arg& a : as) known |= a.name == g.first;
        if (!known) throw std::invalid_argument("TypeError: unexpected keyword argument " + g.first);
      }
      if (as.size() != sizeof...(A)) throw std::invalid_argument("TypeError: names and parameters differ in number");
      std::vector<Value> v;
      for (const arg& a : as) v.push_back(given.count(a.name) ? given.at(a.name) : a.value);
      invoke(f, v, std::index_sequence_for<A...>());
    };
    return *this;
  }
  template <typename... A, std::size_t... I>
  static void invoke(const std::function<void(A...)>& f, const std::vector<Value>& v, std::index_sequence<I...>) {
    (void)v;
    f(convert<typename std::decay<A>::type>(v[I])...);
  }
  template <typename T>
  static T convert(const Value& v) {
    T t{};
    v.to(t);
    return t;
  }
};

}  // namespace pybind11

#define PYBIND11_MODULE(name, m) void vp_pybind_module_##name(pybind11::module_& m)
